"""C02: a password proof is accepted iff it fits this connection's nonce and secret."""
import hashlib
import itertools
import random

from harness import wire
from harness.world import World, RecBase, Violation, check, App
from mysql_mimic.auth import (AbstractClearPasswordAuthPlugin, IdentityProvider, NativePasswordAuthPlugin,
                              NoLoginAuthPlugin, User)

ID = "C02"
LEVEL = "model_checking"
RULE = ("one execution = account x exchange route x response alphabet element (exact proofs, proofs under other "
        "nonces, every single-bit flip, every truncation, ...) or a merge of two exchanges; outcome = "
        "(route, response class, accepted?)")
BOUNDS = {"quick": "all 160 single-bit flips and 20 truncations on every route; all merges of two 2-3 step exchanges; accounts in 9 states, all pairs of states and back",
          "thorough": "additionally all 12720 double-bit flips on two routes and merges of three exchanges"}
ASSUMPTIONS = ["SHA-1 collisions do not occur", "os.urandom is the entropy source when overridden streams are explored"]

PW = {"ascii": "secret", "utf8": "p\u00e4ssw\u00f6rd", "one": "x", "long": "L" * 100}
OLD = "0ld pass"

# name -> (User, current password or None, old password or None)
def mk(name, cur, old=None, canonical=None, upper=False):
    a = wire.native_auth_string(cur) if cur else cur
    if upper:
        a = a.upper()
    return (User(canonical or name, a, "mysql_native_password", wire.native_auth_string(old) if old else None),
            cur or None, old)


ACC = {
    "ascii": mk("ascii", PW["ascii"]),
    "utf8": mk("utf8", PW["utf8"]),
    "one": mk("one", PW["one"]),
    "long": mk("long", PW["long"], canonical="canon"),
    "rot": mk("rot", PW["ascii"], OLD),
    "upper": mk("upper", PW["ascii"], upper=True),
    "nopw": mk("nopw", None),
    "emptypw": mk("emptypw", ""),
    "oldonly": mk("oldonly", None, OLD),
    "oldonly2": mk("oldonly2", "", OLD),
    "oldblank": (User("oldblank", wire.native_auth_string("secret"), "mysql_native_password", ""), "secret", None),
    "oldbad": (User("oldbad", wire.native_auth_string("secret"), "mysql_native_password", "zz"), "secret", None),
    "blanks": (User("blanks", "", "mysql_native_password", ""), None, None),
    "badold": (User("badold", "zz", "mysql_native_password", wire.native_auth_string(OLD)), None, OLD),
    "bad1": (User("bad1", "zz", "mysql_native_password"), None, None),
    "bad2": (User("bad2", wire.native_auth_string("secret")[:38], "mysql_native_password"), None, None),
    "bad3": (User("bad3", "abc", "mysql_native_password"), None, None),
    "nologin": (User("nologin", wire.native_auth_string("secret"), "mysql_no_login"), None, None),
    "clear": (User("clear", None, "clear"), None, None),
}


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    def __init__(self, log):
        self.log = log

    async def check(self, username, password):
        self.log.append((username, password))
        return {"ok": "ident", "": "empty", "p\u00e4ss": "uni", "E": "", "x" * 200: "long"}.get(password)


class Provider(IdentityProvider):
    """share: one plugin instance for all connections; otherwise fresh instances per call."""

    def __init__(self, default, share, log):
        self.default, self.share, self.log = default, share, log
        self.shared = self._make()

    def _make(self):
        p = {"native": NativePasswordAuthPlugin(), "nologin": NoLoginAuthPlugin(), "clear": Clear(self.log)}
        order = [self.default] + [k for k in p if k != self.default]
        return [p[k] for k in order]

    def get_plugins(self):
        return self.shared if self.share else self._make()

    async def get_user(self, username):
        return ACC[username][0] if username in ACC else None


# route -> (default plugin, client plugin announced, phase)
ROUTES = {
    "opt": ("native", "mysql_native_password", "hs"),
    "switch": ("native", "mysql_clear_password", "hs"),
    "noplugcap": ("native", None, "hs"),
    "defclear_more": ("clear", "mysql_native_password", "hs"),
    "defclear_switch": ("clear", "mysql_clear_password", "hs"),
    "defnologin_more": ("nologin", "mysql_native_password", "hs"),
    "cu_reuse": ("native", "mysql_native_password", "cu"),
    "cu_switch": ("native", "caching_sha2_password", "cu"),
    "cu_more": ("clear", "mysql_native_password", "cu"),
    "cu_switch_clear": ("clear", "mysql_clear_password", "cu"),
    "cu_after_switch": ("native", "mysql_native_password", "cu_sw"),
    "cu_twice": ("native", "mysql_native_password", "cu_cu"),
}


def response(tok, account, nonce, foreign):
    """-> (bytes, verdict) verdict True/False/None (None: either)."""
    user, cur, old = ACC[account]
    kind = tok[0]
    native = user.auth_plugin == "mysql_native_password"
    valid = account not in ("bad1", "bad2", "bad3", "badold")
    nopass = native and valid and not cur
    if kind == "cur":
        pw = cur or "secret"
        return wire.native_scramble(pw, nonce), bool(native and cur and valid)
    if kind == "old":
        return wire.native_scramble(OLD, nonce), bool(native and old)
    if kind == "curx":     # right proof followed by extra bytes
        return wire.native_scramble(cur or "secret", nonce) + tok[1].encode("latin1"), \
            None if (native and cur) else False
    if kind == "wrong":
        return wire.native_scramble("wrong", nonce), False
    if kind == "empty":
        return b"", (None if account.startswith("oldonly") else nopass)
    if kind == "flip":
        b = bytearray(wire.native_scramble(cur or OLD, nonce))
        for bit in tok[1:]:
            b[bit // 8] ^= 1 << bit % 8
        return bytes(b), False
    if kind == "flipold":
        b = bytearray(wire.native_scramble(OLD, nonce))
        b[tok[1] // 8] ^= 1 << tok[1] % 8
        return bytes(b), False
    if kind == "trunc":
        return wire.native_scramble(cur or OLD, nonce)[:tok[1]], (nopass if tok[1] == 0 and not account.startswith("oldonly") else
                                                                 None if tok[1] == 0 else False)
    if kind == "drop":     # proof without its first byte(s)
        return wire.native_scramble(cur or OLD, nonce)[tok[1]:], False
    if kind == "foreign":  # exact proof for the nonce of another connection
        return wire.native_scramble(cur or OLD, foreign), False
    if kind == "foreignold":
        return wire.native_scramble(OLD, foreign), False
    if kind == "zero":
        return bytes(20), False
    if kind == "nonce":
        return nonce, False
    if kind == "hash":     # what a thief of the user table can compute without the password
        s2 = bytes.fromhex(wire.native_auth_string(cur or "secret"))
        return bytes(a ^ b for a, b in zip(s2, hashlib.sha1(nonce + s2).digest())), False
    if kind == "hash2":
        s2 = bytes.fromhex(wire.native_auth_string(cur or "secret"))
        return hashlib.sha1(nonce + s2).digest(), False
    if kind == "plain":
        return (cur or "secret").encode(), False
    if kind == "onenul":
        return b"\0", False
    if kind == "swapnonce":  # proof over nonce+NUL (a client that did not strip the terminator)
        return wire.native_scramble(cur or "secret", nonce + b"\0"), False
    if kind == "part":       # proof over the first 8 bytes of the nonce only
        return wire.native_scramble(cur or "secret", nonce[:8]), False
    raise KeyError(kind)


BASIC = [("cur",), ("old",), ("curx", "\0"), ("curx", "zz"), ("curx", "\xff" * 21), ("wrong",), ("empty",),
         ("foreign",), ("foreignold",), ("zero",), ("nonce",), ("hash",), ("hash2",), ("plain",), ("onenul",),
         ("swapnonce",), ("part",), ("drop", 1), ("drop", 19)]


def cases(tier):
    out = []
    for route in ROUTES:
        for share in (True, False):
            for account in ACC:
                if account == "clear":
                    continue
                for tok in BASIC:
                    out.append(dict(k="one", route=route, share=share, acc=account, tok=list(tok)))
        for account in ("ascii", "rot", "long"):
            for n in range(20):
                out.append(dict(k="one", route=route, share=True, acc=account, tok=["trunc", n]))
            for bit in range(160):
                out.append(dict(k="one", route=route, share=True, acc=account, tok=["flip", bit]))
        for bit in range(160):
            out.append(dict(k="one", route=route, share=True, acc="rot", tok=["flipold", bit]))
        for account in ("nopw", "emptypw", "nologin"):
            for n in range(1, 21):
                out.append(dict(k="one", route=route, share=True, acc=account, tok=["trunc", n]))
    if tier == "thorough":
        for route in ("opt", "switch"):
            for a, b in itertools.combinations(range(160), 2):
                out.append(dict(k="one", route=route, share=True, acc="ascii", tok=["flip", a, b]))
    # clear password: what the application's check sees and decides
    for route in ("opt_clear", "sw_clear", "more_clear", "cu_clear", "cu_sw_clear"):
        for pw in ("ok", "", "p\u00e4ss", "E", "x" * 200, "no", "ok ", " ok", "OK", "o", "ok\u00e9", "x" * 199, "okk"):
            out.append(dict(k="clear", route=route, pw=pw))
    # merges of concurrent exchanges on one server
    for share in (True, False):
        for n in ((2, 3) if tier == "thorough" else (2,)):
            for routes in itertools.product(("opt", "switch", "defmore"), repeat=n):
                for merge in merges([2 if r == "opt" else 3 for r in routes]):
                    for replay in (False, True):
                        out.append(dict(k="merge", share=share, routes=list(routes), merge=merge, replay=replay))
    for a in CHANGES:
        for b in CHANGES:
            out.append(dict(k="changing", a=a, b=b))
    # nonce freshness and shape
    for route in ("opt", "switch", "defclear_more"):
        out.append(dict(k="fresh", route=route, n=6000 if tier == "quick" else 30000))
        out.append(dict(k="fork", route=route))
    for route in ROUTES:
        for share in (True, False):
            for keep in (True, False):
                out.append(dict(k="crowd", route=route, share=share, keep=keep, n=1100 if tier == "thorough" or route in ("opt", "cu_reuse") and share else 300))
    for start in range(256):
        for stride in ((1, 7) if tier == "quick" else range(1, 256, 2)):
            out.append(dict(k="entropy", start=start, stride=stride))
    return out


def merges(lens):
    """All interleavings of sequences with the given lengths (as index strings)."""
    res = []

    def rec(left, acc):
        if not any(left):
            res.append("".join(map(str, acc)))
            return
        for i, l in enumerate(left):
            if l:
                left[i] -= 1
                acc.append(i)
                rec(left, acc)
                acc.pop()
                left[i] += 1
    rec(list(lens), [])
    return res


def check_nonce(n, what):
    check(len(n) == 20 and b"\0" not in n, "%s nonce is not 20 NUL-free bytes: %r", what, n)


def do_exchange(w, route, account, tok, foreign):
    """-> (accepted, verdict)"""
    default, plug, phase = ROUTES[route]
    c = w.connect()
    h = c.handshake()
    if default == "native":
        check_nonce(h.nonce, "handshake")
        check(h.auth_tail == b"\0", "handshake auth data is not terminated: %r", h.auth_raw)
        check(h.auth_len == 21, "handshake announces %d auth bytes", h.auth_len)
    caps = wire.FULL_CAPS & ~wire.CONNECT_WITH_DB
    if plug is None:
        caps &= ~wire.PLUGIN_AUTH
    issued = [h.nonce]

    def ans(r):
        n = r.nonce if isinstance(r, wire.AuthSwitch) else r.data[:20]
        tail = (r.data[20:])
        check_nonce(n, "challenge")
        check(tail == b"\0", "challenge is not terminated: %r", tail)
        issued.append(n)
        d, v = response(tok, account, n, foreign)
        ans.verdict = v
        return d
    ans.verdict = "unused"
    direct, verdict = response(tok, account, h.nonce, foreign)
    # on routes with a challenge the first response is irrelevant: send a proof for another nonce
    if phase == "hs":
        if route != "opt":
            direct = wire.native_scramble(ACC[account][1] or "secret", foreign)
        r = c.login(account, caps=caps, plugin=plug or "", auth=direct, answers=[ans])
    else:
        if phase == "cu_sw":
            r = c.login("ascii", "secret", caps=caps, plugin="mysql_clear_password", auth=b"x\0")
        else:
            r = c.login("ascii", "secret", caps=caps)
        check(isinstance(r, wire.OK), "setup login refused: %r", r)
        if phase == "cu_cu":
            r = c.change_user("rot", OLD)
            check(isinstance(r, wire.OK), "first COM_CHANGE_USER refused: %r", r)
        if route not in ("cu_reuse", "cu_after_switch", "cu_twice"):
            direct = wire.native_scramble("wrong", foreign)
        c.auth_trace.clear()
        r = c.change_user(account, plugin=plug, auth=direct, answers=[ans])
    if ans.verdict != "unused":
        verdict = ans.verdict
    elif route not in ("opt", "cu_reuse", "cu_after_switch", "cu_twice") \
            and ACC[account][0].auth_plugin == "mysql_native_password":
        raise Violation(f"route {route}: no challenge was issued for a native-password account ({c.auth_trace})")
    check(len(set(issued)) == len(issued), "nonce reissued: %r", issued)
    return c, r, verdict


def run_case(case, ctx):
    k = case["k"]
    globals()["k_" + k](case, ctx)
    ctx.trace()


def expect(c, r, verdict, w, user):
    ok = isinstance(r, wire.OK)
    if verdict is not None and ok != verdict:
        raise Violation(f"proof {'accepted' if ok else 'refused'}, must be {'accepted' if verdict else 'refused'} "
                        f"({r!r})")
    if ok:
        s = [s for s in w.sessions][-1]
        check(s.username == user, "session user %r, vouched identity %r", s.username, user)
    return ok


def k_one(case, ctx):
    log = []
    route, acc, tok = case["route"], case["acc"], case["tok"]
    with World(RecBase, identity_provider=Provider(ROUTES[route][0], case["share"], log)) as w:
        o = w.connect()
        foreign = o.handshake().nonce if ROUTES[route][0] == "native" else b"F" * 20
        c, r, verdict = do_exchange(w, route, acc, tok, foreign)
        ok = expect(c, r, verdict, w, ACC[acc][0].name)
        ctx.transition(1 + len(c.auth_trace))
        ctx.state((route, case["share"], acc, tuple(tok), ok))
        ctx.outcome((route, acc, tok[0], ok))
        if tok[0] == "foreign":
            ctx.sample(dict(case=case, replies=[repr(x) for x in c.auth_trace]), cap=1)


CROWD = [("ascii", ("wrong",)), ("rot", ("foreign",)), ("nopw", ("zero",)), ("ascii", ("drop", 1)), ("rot", ("hash",)), ("long", ("wrong",)), ("nologin", ("cur",))]
GOOD = [("ascii", ("cur",)), ("rot", ("old",)), ("rot", ("cur",)), ("long", ("cur",)), ("nopw", ("empty",))]


def k_crowd(case, ctx):
    """Many exchanges on one server: each is decided on its own, whatever the ones before it came to."""
    route = case["route"]
    with World(RecBase, identity_provider=Provider(ROUTES[route][0], case["share"], [])) as w:
        o = w.connect()
        foreign = o.handshake().nonce if ROUTES[route][0] == "native" else b"F" * 20
        seen = set()

        def one(acc, tok, i):
            try:
                c, r, verdict = do_exchange(w, route, acc, tok, foreign)
                expect(c, r, verdict, w, ACC[acc][0].name)
            except Violation as e:
                raise Violation("exchange %d: %s" % (i, e))
            n = c.hs.nonce if ROUTES[route][0] == "native" else None
            check(n is None or n not in seen, "nonce issued twice")
            seen.add(n)
            if not case["keep"]:
                c.eof()
                w.run()
            ctx.transition(1 + len(c.auth_trace))
        for i in range(case["n"]):
            one(*CROWD[i % len(CROWD)], i)
            if i & (i + 1) == 0 or i % 50 == 49:
                for a, t in GOOD:
                    one(a, t, i)
        for i in range(case["n"] // 2):
            one(*GOOD[i % len(GOOD)], case["n"] + i)
        one("ascii", ("wrong",), 2 * case["n"])
        ctx.state(("crowd", route, case["share"], case["keep"]))


def k_clear(case, ctx):
    log = []
    route, pw = case["route"], case["pw"]
    ident = {"ok": "ident", "": "empty", "p\u00e4ss": "uni", "E": "", "x" * 200: "long"}.get(pw)
    default = "clear" if route in ("opt_clear",) else "native"
    data = pw.encode() + b"\0"
    with World(RecBase, identity_provider=Provider(default, True, log)) as w:
        c = w.connect()
        c.handshake()
        if route == "opt_clear":
            r = c.login("clear", plugin="mysql_clear_password", auth=data)
        elif route == "sw_clear":
            r = c.login("clear", plugin="mysql_native_password", auth=b"A" * 20, answers=[data])
            check(any(isinstance(x, wire.AuthSwitch) and x.plugin == b"mysql_clear_password" for x in c.auth_trace),
                  "no switch to mysql_clear_password: %r", c.auth_trace)
        elif route == "more_clear":   # client already announces the clear plugin on a native default
            r = c.login("clear", plugin="mysql_clear_password", auth=data)
        else:
            r = c.login("ascii", "secret")
            check(isinstance(r, wire.OK), "setup login refused")
            if route == "cu_clear":
                r = c.change_user("clear", plugin="mysql_clear_password", auth=data)
            else:
                r = c.change_user("clear", plugin="mysql_native_password", auth=b"B" * 20, answers=[data])
        check(log == [("clear", pw)], "application check saw %r for password %r", log, pw)
        ok = expect(c, r, ident is not None, w, ident)
        ctx.transition(1 + len(c.auth_trace))
        ctx.state((route, pw, ok))
        ctx.outcome((route, pw, ok))


# ---- accounts that change between exchanges ----------------------------------------------------------
NA, NB = wire.native_auth_string("pw A"), wire.native_auth_string("pw B")
N = "mysql_native_password"
# state of the account -> (User, {password: accepted}); "" is the empty response
CHANGES = {
    "A": (User("u", NA, N), {"pw A"}), "B": (User("u", NB, N), {"pw B"}), "AB": (User("u", NA, N, NB), {"pw A", "pw B"}), "BA": (User("u", NB, N, NA), {"pw A", "pw B"}),
    "other": (User("someone", NA, N), {"pw A"}), "open": (User("u", None, N), {""}), "gone": (None, set()), "locked": (User("u", NA, "mysql_no_login"), set()),
    "bad": (User("u", "zz", N), set()),
}


class Changing(IdentityProvider):
    def __init__(self, share):
        self.now = None
        self.share = share
        self.shared = [NativePasswordAuthPlugin(), NoLoginAuthPlugin()]

    def get_plugins(self):
        return self.shared if self.share else [NativePasswordAuthPlugin(), NoLoginAuthPlugin()]

    async def get_user(self, username):
        return CHANGES[self.now][0] if username == "u" else None


def k_changing(case, ctx):
    """The account as it is when the exchange takes place decides, whatever was true at an earlier one."""
    def proof(c, pw):
        return wire.native_scramble(pw, c.hs.nonce)

    def step(w, c, how, state, pw, where):
        w.provider.now = state
        n = len(w.sessions)
        if how == "new":
            c = w.connect()
            c.handshake()
            c.auth_trace.clear()
            r = c.login("u", pw, auth=proof(c, pw))
        else:
            r = c.change_user("u", pw)
        want = pw in CHANGES[state][1]
        check(isinstance(r, wire.OK) == want, "%s: the account is %r now: %r with the proof for %r", where, state, r, pw)
        if want:
            s = w.sessions[-1]
            check(s.username == CHANGES[state][0].name, "%s: session user %r, the account is %r now", where, s.username, CHANGES[state][0])
        ctx.transition(1)
        ctx.state((where, state, pw, want))
        return c if want else None
    a, b = case["a"], case["b"]
    for share in (True, False):
        for how in ("new", "cu"):
            for pw in ("pw A", "pw B", ""):
                for first in sorted(CHANGES[a][1]) or [None]:
                    provider = Changing(share)
                    with World(RecBase, identity_provider=provider) as w:
                        w.provider = provider
                        c = None
                        where = "%s/%s, then %s %s/%s" % (a, first, how, b, pw)
                        if first is not None:
                            c = step(w, c, "new", a, first, where)
                        else:
                            step(w, c, "new", a, "pw A", where)
                            if how == "cu":
                                continue
                        c = step(w, c, how, b, pw, where)
                        if first is not None:
                            for how3 in ("new", "cu") if c else ("new",):
                                c = step(w, c, how3, a, first, where + ", then %s %s" % (how3, a))
                        ctx.outcome((a, first, how, b, pw, c is None))


def k_merge(case, ctx):
    """Concurrent exchanges: every connection authenticates against its own nonce, whatever the interleaving."""
    routes, replay = case["routes"], case["replay"]
    with World(RecBase, identity_provider=Provider("native", case["share"], [])) as w:
        cl = [None] * len(routes)
        step = [0] * len(routes)
        nonce = [None] * len(routes)
        res = [None] * len(routes)
        accs = ["ascii", "rot", "long"]
        order = []
        for ch in case["merge"]:
            i = int(ch)
            acc = accs[i]
            # replay: connection 0 answers with the proof valid on another connection that already has a nonce
            victim = next((j for j in range(len(routes)) if j != i and nonce[j]), None)
            use = nonce[victim] if replay and i == 0 and victim is not None else None
            if step[i] == 0:
                cl[i] = w.connect()
                order.append(i)
                nonce[i] = cl[i].handshake().nonce
            elif step[i] == 1:
                c = cl[i]
                plug = "mysql_native_password" if routes[i] == "opt" else "weird"
                caps = wire.FULL_CAPS & ~wire.CONNECT_WITH_DB
                c.caps = caps & c.hs.caps
                pw = ACC[acc][1]
                used = use or nonce[i]
                c.send(wire.handshake_response(caps, acc.encode(), wire.native_scramble(pw, used),
                                               plugin=plug.encode()), 1)
                w.run()
                r = c._auth_reply(2)
                if isinstance(r, wire.AuthSwitch):
                    check(routes[i] != "opt", "unexpected auth switch")
                    nonce[i] = r.nonce
                else:
                    res[i] = (r, used == nonce[i])
            else:
                used = use or nonce[i]
                cl[i].send(wire.native_scramble(ACC[acc][1], used), 3)
                w.run()
                res[i] = (cl[i]._auth_reply(4), used == nonce[i])
            step[i] += 1
            ctx.transition()
        for i, (r, good) in enumerate(res):
            ok = isinstance(r, wire.OK)
            check(ok == good, "merge %s: connection %d %s", case["merge"], i,
                  "refused its own proof" if good else "accepted a proof for another connection's nonce")
            if ok:
                s = w.sessions[order.index(i)]
                check(s.username == ACC[accs[i]][0].name, "wrong identity %r", s.username)
        ctx.state((tuple(routes), case["merge"], case["share"], replay))
        ctx.outcome((tuple(isinstance(r, wire.OK) for r, _ in res)))


def _nonces(w, route):
    default, plug, _ = ROUTES[route]
    c = w.connect()
    h = c.handshake()
    if route == "opt":
        return h.nonce
    c.caps = wire.FULL_CAPS & h.caps & ~wire.CONNECT_WITH_DB
    c.send(wire.handshake_response(c.caps, b"ascii", b"A" * 20, plugin=plug.encode()), 1)
    w.run()
    r = c._auth_reply(2)
    n = r.nonce if isinstance(r, wire.AuthSwitch) else r.data[:20]
    check(n != h.nonce or default != "native", "challenge nonce equals the handshake nonce")
    return n


def k_fresh(case, ctx):
    seen = set()
    cols = [set() for _ in range(20)]
    for world in range(3):          # fresh servers restart their connection ids
        with World(RecBase, identity_provider=Provider(ROUTES[case["route"]][0], True, [])) as w:
            for _ in range(case["n"] // 3):
                n = _nonces(w, case["route"])
                check_nonce(n, case["route"])
                check(n not in seen, "nonce %r issued twice", n)
                seen.add(n)
                for i in range(20):
                    cols[i].add(n[i])
                ctx.transition()
    for i, s in enumerate(cols):
        check(len(s) >= 8, "nonce byte %d takes only %d values over %d connections", i, len(s), len(seen))
    ctx.state(("fresh", case["route"]))


def k_fork(case, ctx):
    """Two servers forked from one process must not issue the same nonces (shared PRNG state)."""
    st = random.getstate()
    got = []
    for _ in range(2):
        random.setstate(st)
        with World(RecBase, identity_provider=Provider(ROUTES[case["route"]][0], True, [])) as w:
            got.append([_nonces(w, case["route"]) for _ in range(3)])
    check(not set(got[0]) & set(got[1]), "servers forked from the same process issue the same nonces: %r", got)
    ctx.state(("fork", case["route"]))


def k_entropy(case, ctx):
    """Shape of the nonce for adversarial entropy: every byte value occurs in every position of the stream."""
    import os
    pos = [case["start"]]

    def stream(n):
        out = bytearray()
        for _ in range(n):
            out.append(pos[0] & 255)
            pos[0] += case["stride"]
        return bytes(out)
    saved = os.urandom, random._urandom
    os.urandom = stream
    random._urandom = stream
    try:
        for route in ("opt", "switch"):
            with World(RecBase, identity_provider=Provider("native", True, [])) as w:
                check_nonce(_nonces(w, route), f"{route} (entropy {case['start']}/{case['stride']})")
                c = w.connect()
                r = c.login("ascii", "secret", plugin=ROUTES[route][1], auth=None if route == "opt" else b"q")
                check(isinstance(r, wire.OK), "right proof refused: %r (nonce %r)", r, c.hs.nonce)
                ctx.transition(3)
    finally:
        os.urandom, random._urandom = saved
    ctx.state(("entropy", case["start"], case["stride"]))
