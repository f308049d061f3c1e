"""C01: no command is served on a connection that has not authenticated."""
import itertools

from harness import wire
from harness.world import World, RecSession, Violation, check, App
from mysql_mimic.auth import (AbstractClearPasswordAuthPlugin, AuthPlugin, Forbidden, IdentityProvider,
                              NativePasswordAuthPlugin, NoLoginAuthPlugin, Success, User)

ID = "C01"
LEVEL = "model_checking"
RULE = ("one execution = identity-provider configuration x credentials/announced plugin/answers x "
        "delivery mode x follow-up command sequence on the real server; outcomes = distinct "
        "(reply kinds, application calls) observed")
BOUNDS = {"quick": "all follow-up sequences of length <=2 over 14 commands; sequential and pipelined delivery",
          "thorough": "all follow-up sequences of length <=3; all defaults for every configuration"}
ASSUMPTIONS = ["asyncio transports behave as CPython 3.12 selector transports (simulated)",
               "gssapi (kerberos plugin) is not installed and not explored"]


class ClearPlugin(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        if username == "clearraise":
            raise RuntimeError("backend down")
        return {"clear": "as_clear"}.get(username) if password == "cpw" else None


class MultiPlugin(AuthPlugin):
    """Needs two AuthMoreData round trips."""

    name = "multi"
    client_plugin_name = None

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"s" * 20 + b"\0"
        auth_info = yield b"q1"
        if auth_info.data != b"a1":
            yield Forbidden("no a1")
        auth_info = yield b"q2"
        if auth_info.data == b"a2":
            yield Success("as_multi")
        else:
            yield Forbidden()


class RaisePlugin(AuthPlugin):
    name = "raiser"
    client_plugin_name = "raiser_client"

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"x"
        raise RuntimeError("plugin failure")


PLUGINS = {"native": NativePasswordAuthPlugin, "nologin": NoLoginAuthPlugin, "clear": ClearPlugin,
           "multi": MultiPlugin, "raiser": RaisePlugin}

USERS = {
    "pw": User("pw", wire.native_auth_string("secret"), "mysql_native_password"),
    "rot": User("rot", wire.native_auth_string("new"), "mysql_native_password",
                wire.native_auth_string("secret")),
    "nopw": User("nopw", None, "mysql_native_password"),
    "alias": User("canonical", wire.native_auth_string("secret"), "mysql_native_password"),
    "nologin": User("nologin", None, "mysql_no_login"),
    "clear": User("clear", None, "clear"),
    "clearraise": User("clearraise", None, "clear"),
    "multi": User("multi", None, "multi"),
    "raiser": User("raiser", None, "raiser"),
    "noplug": User("noplug", wire.native_auth_string("secret"), "missing_plugin"),
    "none": User("none", wire.native_auth_string("secret"), None),
}
IDENTITY = {"pw": "pw", "rot": "rot", "nopw": "nopw", "alias": "canonical", "clear": "as_clear",
            "multi": "as_multi", "noplug": "noplug", "none": "none"}


class Provider(IdentityProvider):
    def __init__(self, order):
        self.plugins = [PLUGINS[n]() for n in order]

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        if username == "boom":
            raise RuntimeError("directory down")
        return USERS.get(username)


ORDERS = {
    "native": ["native", "nologin", "clear", "multi", "raiser"],
    "nologin": ["nologin", "native", "clear", "multi", "raiser"],
    "clear": ["clear", "native", "nologin", "multi", "raiser"],
    "multi": ["multi", "native", "nologin", "clear", "raiser"],
}

# user, client plugin, first response, list of answers to later challenges
# response tokens: R right scramble of "secret"; W scramble of another password; E empty; T truncated;
# G garbage; C clear right; D clear wrong; Q a COM_QUERY payload; S seq error
CREDS = []
for u in ("pw", "rot", "nopw", "alias", "nologin", "clear", "clearraise", "multi", "raiser", "noplug", "none",
          "unknown", "boom", ""):
    for plug in ("mysql_native_password", "mysql_clear_password", "weird", ""):
        for first in ("R", "W", "E", "T", "G", "C"):
            CREDS.append((u, plug, first))

ANSWERS = {"native": ("R", "W", "E", "T", "Q"), "clear": ("C", "D", "E", "Q"), "other": ("A", "E", "Q")}


def token(tok, nonce, idx):
    if tok == "R":
        return wire.native_scramble("secret", nonce)
    if tok == "W":
        return wire.native_scramble("wrong", nonce)
    if tok == "E":
        return b""
    if tok == "T":
        return wire.native_scramble("secret", nonce)[:-1]
    if tok == "G":
        return b"\x01"
    if tok == "C":
        return b"cpw\0"
    if tok == "D":
        return b"bad\0"
    if tok == "Q":
        return wire.com_query("SELECT a FROM t")
    if tok == "A":
        return (b"a1", b"a2", b"a3")[min(idx, 2)]
    raise KeyError(tok)


FOLLOW = ["query", "static", "init_db", "prepare", "execute", "fetch", "ping", "cu_good", "cu_bad", "reset",
          "fields", "hs_again", "setvar", "quit"]


def follow_payload(name, c):
    caps = c.caps or (wire.FULL_CAPS & c.hs.caps & ~wire.CONNECT_WITH_DB)
    if name == "query":
        return wire.com_query("SELECT a FROM t", caps)
    if name == "static":
        return wire.com_query("SELECT USER(), CURRENT_USER()", caps)
    if name == "setvar":
        return wire.com_query("SET autocommit = 0", caps)
    if name == "init_db":
        return wire.com_init_db("db1")
    if name == "prepare":
        return wire.com_prepare("SELECT a FROM t")
    if name == "execute":
        return wire.com_execute(0, (), caps)
    if name == "fetch":
        return wire.com_fetch(0, 1)
    if name == "ping":
        return wire.COM_PING
    if name == "cu_good":
        return wire.com_change_user(caps, b"nopw", b"")
    if name == "cu_bad":
        return wire.com_change_user(caps, b"unknown", b"")
    if name == "reset":
        return wire.COM_RESET_CONNECTION
    if name == "fields":
        return wire.com_field_list(b"t")
    if name == "quit":
        return wire.COM_QUIT
    if name == "hs_again":
        return wire.handshake_response(caps, b"nopw", b"")
    raise KeyError(name)


def seqs(depth):
    for n in range(1, depth + 1):
        yield from itertools.product(FOLLOW, repeat=n)


def cases(tier):
    out = []
    orders = list(ORDERS)
    # (a) every credential combination on every default, answers enumerated, short follow-up
    for order in orders:
        for u, plug, first in CREDS:
            for a in ("R", "W", "E", "T", "C", "D", "A", "Q", "S"):
                out.append(dict(k="hs", order=order, u=u, plug=plug, first=first, ans=a,
                                follow=["query", "ping"], mode="after"))
    # (b) every follow-up sequence after representative failures (one per failing branch)
    fails = [("native", "pw", "mysql_native_password", "W", "W"),
             ("native", "unknown", "mysql_native_password", "E", "E"),
             ("native", "nologin", "mysql_native_password", "E", "E"),
             ("native", "clear", "mysql_native_password", "E", "D"),
             ("native", "multi", "weird", "E", "E"),
             ("native", "boom", "mysql_native_password", "E", "E"),
             ("native", "raiser", "mysql_native_password", "E", "E"),
             ("clear", "pw", "mysql_clear_password", "C", "W"),
             ("nologin", "nologin", "", "E", "E")]
    depth = 3 if tier == "thorough" else 2
    for f in fails:
        for s in seqs(depth):
            for mode in ("after", "pipe0") if len(s) < 3 else ("after",):
                out.append(dict(k="hs", order=f[0], u=f[1], plug=f[2], first=f[3], ans=f[4],
                                follow=list(s), mode=mode))
    # (c) malformed handshake responses: every truncation, then follow-ups
    for cut in range(0, 90):
        for mode in ("after", "pipe0"):
            out.append(dict(k="trunc", cut=cut, follow=["query", "cu_good"], mode=mode))
    for what in ("empty", "ones", "query", "ping", "sslreq", "badcharset", "seq"):
        for s in seqs(1):
            for mode in ("after", "pipe0", "pipe1"):
                out.append(dict(k="garb", what=what, follow=list(s), mode=mode))
    # (d) COM_CHANGE_USER after a successful login
    cu_orders = orders if tier == "thorough" else ["native", "clear"]
    for order in cu_orders:
        for u, plug, first in CREDS:
            for a in ("R", "W", "C", "A", "Q"):
                for second in (False, True):
                    out.append(dict(k="cu", order=order, u=u, plug=plug, first=first, ans=a,
                                    follow=["static", "query"], mode="after", second=second))
    for f in fails:
        for s in seqs(depth):
            for mode in ("after", "pipe0") if len(s) < 3 else ("after",):
                out.append(dict(k="cu", order="native", u=f[1], plug=f[2], first=f[3], ans=f[4],
                                follow=list(s), mode=mode, second=False))
    for cut in range(1, 60):
        out.append(dict(k="cutrunc", cut=cut, follow=["static", "query"], mode="after"))
    return out


def expected(order, u, plug, first, answers, switch):
    """Identity that must be vouched for, or None; reference decision."""
    if u not in IDENTITY:
        return None
    plugin = USERS[u].auth_plugin
    if plugin not in ("mysql_native_password", "mysql_no_login", "clear", "multi", "raiser"):
        plugin = {"native": "mysql_native_password", "nologin": "mysql_no_login"}.get(order, order)
    last = answers[-1] if answers else first
    if plugin == "mysql_native_password":
        if u == "nopw":
            ok = last == "E"
        else:
            ok = last == "R"
        return IDENTITY[u] if ok else None
    if plugin == "clear":
        # accepts what check() accepts
        name = {"clear": "as_clear"}.get(u)
        return name if name and last == "C" else None
    if plugin == "multi":
        return "as_multi" if answers[-2:] == ["A", "A"] else None
    return None


def app_calls(w):
    return [e for e in w.log if e[1] != "close"]


def run_case(case, ctx):
    k = case["k"]
    app = App()
    app.query = lambda s, e, sql, attrs: ([(1,)], ["a"])
    app.schema = lambda s: {"t": {"a": "INT"}}
    provider = Provider(ORDERS[case.get("order", "native")])
    with World(RecSession, app=app, identity_provider=provider) as w:
        c = w.connect()
        c.handshake()
        if k == "hs":
            ok = exchange(c, w, case, ctx, change=False)
            passed = [ok] if ok else []
        elif k in ("trunc", "garb"):
            caps = wire.FULL_CAPS & c.hs.caps & ~wire.CONNECT_WITH_DB
            c.caps = caps
            full = wire.handshake_response(caps, b"nopw", b"", attrs={b"k": b"v"})
            seq = 1
            if k == "trunc":
                if case["cut"] >= len(full):
                    return
                payload = full[:case["cut"]]
            else:
                payload = {"empty": b"", "ones": b"\xff" * 40, "query": wire.com_query("SELECT 1"),
                           "ping": wire.COM_PING, "sslreq": wire.ssl_request(caps),
                           "badcharset": full[:8] + b"\xfe" + full[9:], "seq": full}[case["what"]]
                if case["what"] == "seq":
                    seq = 0
            pipe(c, w, case, payload, seq)
            pk = c.packets()
            # a truncation inside trailing optional fields may still authenticate: decide by the reply
            ok = bool(pk) and pk[0][2][:1] == b"\0"
            if ok and k == "trunc":
                # every field the server needs was there (the user has no password)
                check(case["cut"] >= 32 + 5 + 1, "truncated handshake response of %d bytes accepted", case["cut"])
                ctx.count("accepted_truncations")
                passed = ["nopw"]
                pk = pk[1:]
                return
            check(pk and not ok, "malformed handshake response: no ERR (%r)", pk)
            only_err(pk, c, "malformed handshake", True)
            passed = []
        else:
            r = c.login("pw", "secret")
            if isinstance(r, (wire.ERR,)):
                raise Violation("good login refused: %r" % r)
            passed = ["pw"]
            if case.get("second"):
                r = c.change_user("nopw", "")
                check(isinstance(r, wire.OK), "good COM_CHANGE_USER refused: %r", r)
                passed.append("nopw")
            if k == "cu":
                ok = exchange(c, w, case, ctx, change=True)
                if ok:
                    passed.append(ok)
            else:
                caps = c.caps
                full = wire.com_change_user(caps, b"nopw", b"", b"dbx", attrs={b"k": b"v"})
                if case["cut"] >= len(full):
                    return
                c.send(full[:case["cut"]])
                w.run()
                pk = c.packets()
                check(len(pk) == 1 or c.closed, "truncated COM_CHANGE_USER: %r", pk)
                if pk and pk[0][2][:1] == b"\xfe":  # valid without the optional tail: plugin unknown
                    c.send(token("W", c.hs.nonce, 0), 2)
                    w.run()
                    pk = c.packets()
                ok = bool(pk) and pk[0][2][:1] == b"\0"
                if ok:
                    check(case["cut"] >= 1 + 5 + 1 + 4, "truncated COM_CHANGE_USER accepted")
                    passed.append("nopw")
                else:
                    only_err(pk, c, "truncated COM_CHANGE_USER")
                    # parse failure: closing and keeping the old identity are both fine
                    ok = None if c.closed else "pw"
        base = len(w.log)
        for f in case["follow"]:
            if case["mode"] != "after":
                break
            c.send(follow_payload(f, c))
            w.run()
            ctx.transition()
        pk = c.packets()
        if not ok:
            check(not [e for e in w.log[base:] if e[1] != "close"],
                  "application called after failed authentication: %r", w.log[base:])
            only_err(pk, c, "after failed authentication", k in ("trunc", "garb"))
            if k in ("hs", "trunc", "garb"):
                check(not w.log, "application session used without authentication: %r", w.log)
        else:
            calls = [e for e in w.log if e[1] == "init"]
            check(len(calls) == 1, "init calls: %r", calls)
            served(case, c, w, ok, pk)
        # identity the application sees
        for s in w.sessions:
            check(s.username in (passed or [None]),
                  "session.username %r never passed authentication (%r)", s.username, passed)
            if ok and passed:
                check(s.username == passed[-1], "session.username %r, authenticated as %r", s.username, passed[-1])
        ctx.trace()
        ctx.outcome((k, bool(ok), c.closed, tuple(p[2][:3] for p in pk), tuple(e[1] for e in w.log)))
        ctx.state((k, case.get("order"), case.get("u"), case.get("plug"), case.get("first"), case.get("ans"),
                   bool(ok), c.closed, tuple(case["follow"])))
        if not ok and len(case["follow"]) > 1:
            ctx.sample(dict(case=case, auth=[repr(a) for a in c.auth_trace], after=[repr(p[2][:40]) for p in pk],
                            app=w.log[:]))


def only_err(pk, c, what, pre=False):
    for p in pk:
        if p[2][:1] != b"\xff":
            raise Violation(f"{what}: server answered {p[2][:60]!r}")
        wire.parse_err(p[2], c.caps, pre)


def pipe(c, w, case, payload, seq):
    """Send the payload; in pipelined modes follow-ups travel in the same segment."""
    data = wire.frame(payload, seq)
    if case["mode"] != "after":
        s = 0 if case["mode"] == "pipe0" else seq + 1
        for f in case["follow"]:
            data += wire.frame(follow_payload(f, c), s)
    c.feed(data)
    w.run()


def exchange(c, w, case, ctx, change):
    """Run the authentication exchange; returns the vouched identity or None."""
    h = c.hs
    log0 = len(w.log)
    plug, u = case["plug"], case["u"]
    if not change:
        c.caps = wire.FULL_CAPS & h.caps & ~wire.CONNECT_WITH_DB
    first = token(case["first"], h.nonce, 0)
    if change:
        payload = wire.com_change_user(c.caps, u.encode(), first, b"", plugin=plug.encode())
        seq = 0
    else:
        payload = wire.handshake_response(c.caps, u.encode(), first, plugin=plug.encode())
        seq = 1
    pipe(c, w, case, payload, seq)
    used = []
    interrupted = False
    for rnd in range(6):
        ctx.transition()
        pk = c.packets()
        if not pk and c.closed:
            raise Violation("connection closed without ERR during authentication")
        if not pk:
            raise Violation("no reply during authentication")
        if case["mode"] != "after":
            # pipelined bytes may be consumed as answers: only ERR or challenges may follow
            last = None
            for i, p in enumerate(pk):
                r = wire.parse_auth_reply(p[2], c.caps)
                if isinstance(r, wire.OK):
                    raise Violation(f"failing exchange answered OK ({pk!r})")
                if isinstance(last, wire.ERR) and not isinstance(r, wire.ERR):
                    raise Violation(f"answer after ERR: {r!r}")
                last = r
            if isinstance(last, wire.ERR):
                c.auth_trace.append(last)
                return None
            r = last
        else:
            if len(pk) != 1:
                raise Violation(f"more than one packet during authentication: {pk!r}")
            if pk[0][0] != (seq + 1) & 255 and not interrupted:
                raise Violation(f"authentication reply has seq {pk[0][0]}, expected {seq + 1}")
            r = wire.parse_auth_reply(pk[0][2], c.caps)
        c.auth_trace.append(r)
        if isinstance(r, wire.ERR):
            if not interrupted and case["mode"] == "after":
                exp = expected(case["order"], u, plug, case["first"], used, None)
                if exp and not (len(used) == 0 and False):
                    raise Violation(f"right credentials refused: {r!r}")
            return None
        if isinstance(r, wire.OK):
            exp = expected(case["order"], u, plug, case["first"], used, None)
            if not exp:
                raise Violation(f"authentication succeeded for {u!r} with {case['first']}/{used}")
            return exp
        if [e for e in w.log[log0:]]:
            raise Violation(f"application called during authentication: {w.log[log0:]!r}")
        tok = case["ans"]
        if tok == "S":
            c.send(wire.com_query("SELECT a FROM t", c.caps), 0)  # new command instead of the answer
            interrupted = True
            used.append("S")
        else:
            seq += 2
            used.append(tok)
            nonce = (r.nonce if isinstance(r, wire.AuthSwitch) else r.data[:20])
            if isinstance(r, wire.AuthSwitch) and r.plugin != b"mysql_native_password":
                nonce = h.nonce
            idx = {b"q1": 0, b"q2": 1}.get(getattr(r, "data", None), 0)
            c.send(token(tok, nonce, idx), seq)
        w.run()
    raise Violation("authentication does not end")


def served(case, c, w, ok, pk):
    """After success commands are served (guards against a vacuous check)."""
    if case["follow"][:1] == ["static"] and case["mode"] == "after":
        p = wire.Packets(pk)
        r = wire.read_response(p, "query", c.caps)
        check(r.kind == "rows", "static query after successful authentication: %r", r)
        user = {"as_clear": "clear", "as_multi": "multi", "canonical": "alias"}.get(ok, ok)
        if case["k"] == "cutrunc":
            user = None
        if user is not None:
            check(r.rows[0] == [user.encode(), ok.encode()], "USER(), CURRENT_USER() = %r for %r", r.rows, ok)
        else:
            check(r.rows[0][1] == ok.encode(), "CURRENT_USER() = %r for %r", r.rows, ok)
    elif case["follow"][:2] == ["query", "ping"] and case["mode"] == "after":
        p = wire.Packets(pk)
        r = wire.read_response(p, "query", c.caps)
        check(r.kind == "rows" and r.rows == [[b"1"]], "query after success: %r", r)
        check(len([e for e in w.log if e[1] == "query"]) == 1, "query calls %r", w.log)
