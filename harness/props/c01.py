"""C01 - no command is served on a connection that has not authenticated."""
import itertools

from hypothesis import strategies as st

import authlib
import wire
from authlib import ACCOUNTS, CLIENT_PLUGIN, KINDS
from runner import Campaign
from world import App, NoResponse, ProtocolError, Violation, World, check

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("cases = identity-provider configuration x 1..3 authentication exchanges (handshake, then COM_CHANGE_USER) x "
        "follow-up commands; non-trivial = at least one exchange failed and at least one follow-up command was then "
        "sent, or an exchange succeeded after an earlier success")
ASSUMPTIONS = ["the account model in harness/authlib.py (which proof fits which account) is correct",
               "session.init itself is not counted as receiving a command"]

USERS = list(ACCOUNTS) + ["nobody", ""]
CPLUGINS = ["mysql_native_password", "mysql_clear_password", "caching_sha2_password", "multi_client", "quiet_client",
            "mysql_no_login", "", "abstract_mysql_clear_password"]
FOLLOW = ["query", "ping", "init_db", "prepare", "field_list", "reset_conn", "change_user", "execute", "debug",
          "unsupported", "set", "use", "fetch", "stmt_reset", "handshake"]
SERVED = {"query", "use", "reset", "schema"}
OPT = [wire.LENENC_AUTH, wire.DEPRECATE_EOF, wire.QUERY_ATTRIBUTES, wire.CONNECT_ATTRS, wire.CONNECT_WITH_DB]


def follow_payload(name, caps, nonce, plugins):
    if name == "query":
        return wire.com_query(b"SELECT a FROM t", caps)
    if name == "set":
        return wire.com_query(b"SET autocommit = 1", caps)
    if name == "use":
        return wire.com_query(b"USE db9", caps)
    if name == "ping":
        return wire.PING
    if name == "init_db":
        return wire.com_init_db(b"db9")
    if name == "prepare":
        return wire.com_stmt_prepare(b"SELECT a FROM t")
    if name == "field_list":
        return wire.com_field_list(b"t")
    if name == "reset_conn":
        return wire.RESET_CONNECTION
    if name == "execute":
        return wire.com_stmt_execute(0, caps)
    if name == "fetch":
        return wire.com_stmt_fetch(0, 1)
    if name == "stmt_reset":
        return wire.com_stmt_reset(0)
    if name == "debug":
        return wire.DEBUG
    if name == "unsupported":
        return b"\x09"
    if name == "handshake":
        u = "alice" if "native" in plugins else "andy"
        return wire.handshake_response(caps, u.encode(), authlib.build("right", u, plugins, nonce), None)
    if name == "change_user":
        # credentials that would be right on this connection
        u = "bob" if "native" in plugins else "carol"
        return wire.change_user(caps, u.encode(), authlib.build("right", u, plugins, nonce), b"", 45,
                                (CLIENT_PLUGIN[authlib.effective(u, plugins)] or "mysql_native_password").encode())
    raise ValueError(name)


def run(case, ctx):
    plugins = case["plugins"]
    provider = authlib.make_provider(plugins)
    if case.get("boom"):
        orig = provider.get_user

        async def get_user(name):
            if name == case["boom"]:
                raise RuntimeError("identity backend down")
            return await orig(name)
        provider.get_user = get_user
    caps = wire.BASE_CAPS
    for i, bit in enumerate(OPT):
        if case["caps"] >> i & 1:
            caps |= bit
    if case.get("noplugin"):
        caps &= ~wire.PLUGIN_AUTH
    app = App(query=lambda s, e, q, a: ([(1,)], ["a"]), schema=lambda s: {"t": {"a": "INT"}})
    with World(app=app, provider=provider) as w:
        c = w.client(caps)
        check(c.hs is not None, "no greeting")
        caps = c.caps
        c.allow_unsolicited = True
        nonces = [c.hs.scramble]
        current = None  # identity the connection is authenticated as
        for rnd, ex in enumerate(case["rounds"]):
            user = ex["user"]
            mark = len(w.events)
            nonce = c.hs.scramble if ex.get("nonce", 0) == 0 else nonces[-1]
            data = authlib.build(ex["resp"], user, plugins, nonce)
            responses = [data]
            cplugin = ex["cplugin"].encode()
            if rnd == 0:
                db = b"db1" if caps & wire.CONNECT_WITH_DB and ex.get("db") else None
                if ex.get("rawcmd"):
                    payload = wire.com_query(b"SELECT a FROM t", caps)
                    responses = [b"\xff"]
                else:
                    payload = wire.handshake_response(caps, user.encode(), data[:250], db, cplugin,
                                                      [(b"k", b"v")])
                seq = c.expect_seq
            else:
                payload = wire.change_user(caps, user.encode(), data[:250], b"db2" if ex.get("db") else b"",
                                           None if ex.get("short") else 45, cplugin, [(b"k", b"v")])
                seq = 0
            c.parser = wire.Parser("auth", caps)
            c.send_payload(payload, seq)
            if ex.get("pipeline"):
                # commands sent blindly behind the response, before any verdict
                for f in case["follow"][:2]:
                    d, _ = wire.frame(follow_payload(f, caps, nonces[0], plugins), 0)
                    c.raw(d)
            w.settle()
            c.pump()
            step = 0
            r = c.parser.r if c.parser.done else None
            while r is not None and r.kind in ("switch", "more") and step < 4:
                step += 1
                if r.kind == "switch":
                    rest = r.payload[1:].split(b"\0", 1)
                    nn = rest[1].rstrip(b"\0") if len(rest) > 1 else b""
                    if rest[0] == b"mysql_native_password":
                        nonces.append(nn)
                    kind = ex["switch"]
                    data = authlib.build(kind, user, plugins, nn, step=0)
                else:
                    data = authlib.build(ex["more"], user, plugins, nonces[-1], step=1)
                check(not ({e[1] for e in w.events[mark:]} & SERVED),
                      lambda: f"a command was served before the exchange finished: {w.events[mark:]}")
                responses.append(data)
                r = c.auth_step(data)
            ok = r is not None and r.kind == "ok"
            boom = case.get("boom") == user
            valid = (not boom and not (rnd == 0 and ex.get("rawcmd"))
                     and authlib.valid_proof(user, plugins, responses, nonces))
            if ok:
                ctx.tag("accept")
                check(valid, lambda: f"exchange {rnd} for user {user!r} accepted without a valid proof: "
                                     f"responses={responses} (case {ex})")
                ident = authlib.identity(user, plugins)
                if current is not None:
                    ctx.nontrivial()
                current = ident
                s = w.sessions[-1]
                idents = {ident}
                if ex.get("pipeline") and "change_user" in case["follow"][:2]:
                    # the COM_CHANGE_USER sent behind the response carries a valid proof for another account
                    idents.add(authlib.identity("bob" if "native" in plugins else "carol", plugins))
                check(s.username in idents, lambda: f"session runs as {s.username!r} after authenticating as {ident!r}")
                for ev in w.events[mark:]:
                    if ev[1] == "init":
                        check(ev[2] in idents, lambda: f"session initialised as {ev[2]!r}, not {ident!r}")
                if ex.get("pipeline"):
                    break  # stream position unknown: stop here
                mark = len(w.events)
                c.allow_unsolicited = False
                q = c.query("SELECT a FROM t")
                c.allow_unsolicited = True
                ev = [e for e in w.events[mark:] if e[1] == "query"]
                check(q.kind == "rows" and len(ev) == 1 and ev[0][4] == ident,
                      lambda: f"query after successful login as {ident!r}: {q!r} {ev}")
                continue
            # the exchange failed (or hangs waiting for more input)
            if r is None and not c.closed and not c.parser.done:
                raise Violation(f"exchange {rnd} for {user!r} left unanswered: {ex}")
            if r is not None and r.kind in ("switch", "more"):
                ctx.tag("unfinished")
            elif not ex.get("pipeline"):  # (blind follow-ups can displace the reply)
                check(r is not None, lambda: f"failed exchange {rnd} closed without an ERR packet: {ex}")
                check(r.kind == "err", lambda: f"failed exchange answered with {r!r}")
            ctx.tag("reject-handshake" if rnd == 0 else "reject-change-user")
            s = w.sessions[-1]
            for fi, f in enumerate(case["follow"]):
                ctx.nontrivial()
                if c.sock.closed:
                    ctx.tag("closed")
                    break
                d, _ = wire.frame(follow_payload(f, caps, nonces[0], plugins), 0 if not case.get("keepseq") else c.expect_seq)
                c.raw(d)
                if case.get("burst"):
                    continue
                w.settle()
            w.settle()
            c.parser = None
            c.pump()
            for p in c.unsolicited:
                check(p[:1] == b"\xff", lambda: f"after the failed exchange {rnd} for user {user!r} ({ex}) the server "
                                               f"answered a follow-up command {case['follow']} with {p[:60]!r}")
            bad = [e for e in w.events[mark:] if e[1] in SERVED]
            check(not bad, lambda: f"after the failed exchange {rnd} for user {user!r} ({ex}) the application received {bad}")
            if current is None:
                check(s.username is None, lambda: f"session.username is {s.username!r} although nothing authenticated")
            elif s.username is not None:
                check(s.username == current, lambda: f"session.username became {s.username!r} by a failed COM_CHANGE_USER")
            break


def ex_strategy(first):
    d = {
        "user": st.sampled_from(USERS), "cplugin": st.sampled_from(CPLUGINS),
        "resp": st.sampled_from(KINDS + ["right"] * 4), "switch": st.sampled_from(KINDS + ["right"] * 3),
        "more": st.sampled_from(KINDS + ["right"] * 3), "db": st.booleans(),
        "pipeline": st.sampled_from([False, False, False, True]), "nonce": st.sampled_from([0, 0, 1]),
    }
    if first:
        d["rawcmd"] = st.sampled_from([False] * 12 + [True])
    else:
        d["short"] = st.sampled_from([False, False, True])
    return st.fixed_dictionaries(d)


def good_first():
    return st.sampled_from([
        {"user": u, "cplugin": CLIENT_PLUGIN.get(ACCOUNTS[u][0]) or "mysql_native_password", "resp": "right",
         "switch": "right", "more": "right", "db": False} for u in ("alice", "bob", "carol", "mara", "andy", "rita", "anon", "quinn")])


@st.composite
def cases(draw):
    plugins = draw(st.permutations(["native", "clear", "nologin", "multi", "any", "guest", "never", "quiet", "mute"]))
    plugins = plugins[: draw(st.integers(1, 7))]
    k = draw(st.integers(0, 2))
    if draw(st.booleans()):
        rounds = [draw(good_first())] + [draw(ex_strategy(False)) for _ in range(max(k, 1))]
    else:
        rounds = [draw(ex_strategy(True))] + [draw(ex_strategy(False)) for _ in range(k)]
    return {
        "plugins": plugins, "caps": draw(st.integers(0, 31)), "rounds": rounds,
        "follow": draw(st.lists(st.sampled_from(FOLLOW), min_size=1, max_size=4)),
        "burst": draw(st.booleans()), "keepseq": draw(st.booleans()),
        "noplugin": draw(st.sampled_from([False] * 9 + [True])),
        "boom": draw(st.sampled_from([None] * 6 + ["alice", "nobody", "carol"])),
    }


def grid(tier):
    """Every account x response kind x route x announced plugin, each followed by each command."""
    orders = [["native", "clear", "nologin", "multi", "any"], ["clear", "native", "multi"], ["nologin", "native", "clear"],
              ["multi", "native"], ["any", "native", "clear"], ["guest", "clear", "native"],
              ["native", "never", "guest", "clear"], ["never", "native", "any"], ["quiet", "native", "mute", "clear"],
              ["clear", "mute", "quiet"], ["mute", "clear", "native"]]
    n = 0
    for plugins in orders:
        for user in USERS:
            for kind in KINDS:
                for cp in CPLUGINS[:5] + [""]:
                    for rnd in (0, 1):
                        n += 1
                        if tier == "quick" and n % 4:
                            continue
                        ex = {"user": user, "cplugin": cp, "resp": kind, "switch": kind, "more": kind, "db": n % 3 == 0}
                        u0 = "andy" if "any" in plugins else "bob"
                        good = {"user": u0, "cplugin": "mysql_native_password", "resp": "right", "switch": "right",
                                "more": "right"}
                        f = [FOLLOW[(n // 4) % len(FOLLOW)], "query"]
                        yield {"plugins": plugins, "caps": n % 32, "rounds": ([] if rnd == 0 else [good]) + [ex],
                               "follow": f, "burst": n % 5 == 0, "keepseq": False}


CAMPAIGNS = [
    Campaign("grid", run, enum=grid, exhaustive=True),
    Campaign("random", run, strategy=cases, quick=4000, thorough=80000),
]
