"""C18 - connection ids are unique among live connections and address the right one."""
import asyncio

from hypothesis import strategies as st

import wire
from runner import Campaign
from world import App, World, check

from mysql_mimic.constants import KillKind
from mysql_mimic.control import LocalControl, TooManyConnections

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("cases = histories of arrivals and departures: (registry) directly against LocalControl with server ids 0, 1, 65535, 65536, larger, negative, random: bursts of up to 200000 arrivals with survivors at chosen or random positions, one or "
        "more wrap-arounds, filling to the last id, arrivals while full, removals of one or many in between, kills of live, dead and foreign ids; (served) real clients of a real server with the sequence moved by registered stand-ins: "
        "handshake id = CONNECTION_ID() = KILL target, across COM_CHANGE_USER/COM_RESET_CONNECTION, every way of ending, full registry answered by ERR 1040, recovery; every id is compared with a set model; non-trivial = the sequence wraps "
        "around with survivors, or the registry is full, or a KILL addresses a connection among several")
ASSUMPTIONS = ["the registry is LocalControl", "KILL of an id that no live connection has may be answered with OK or ERR"]

SIZE = 65536
SERVER_IDS = [0, 1, 7, 65535, 65536, 65537, 123456789, -1, None, 32768, 2 ** 32 + 5]


class Stub:
    def __init__(self):
        self.kills = []

    def kill(self, kind):
        self.kills.append(kind)

    # whatever else a registry may want to know
    connection_id = None
    session = None


class Model:
    """the live ids"""

    def __init__(self, control, server_id):
        self.control, self.server_id = control, server_id
        self.prefix = None if server_id is None else server_id % SIZE
        self.live = {}  # id -> stub or client
        self.order = []
        self.issued = 0
        self.wraps = 0
        self.full = 0

    def seen(self, cid, who):
        check(isinstance(cid, int) and 0 <= cid < 2 ** 32, f"connection id {cid!r} is not a 32-bit number (server id {self.server_id})", key="width")
        if self.prefix is None:
            self.prefix = cid >> 16
        check(cid >> 16 == self.prefix, f"connection id {cid:#x}: the upper half is not the server id {self.server_id} ({self.prefix:#x})", key="prefix")
        check(cid not in self.live, f"connection id {cid:#x} was given to a second live connection (arrival {self.issued}, {len(self.live)} live)", key="duplicate")
        self.live[cid] = who
        self.order.append(cid)
        self.issued += 1

    async def add(self):
        s = Stub()
        room = len(self.live) < SIZE
        try:
            cid = await self.control.add(s)
        except TooManyConnections:
            check(not room, f"refused with {len(self.live)} of {SIZE} ids in use", key="refused")
            self.full += 1
            return None
        check(room, f"a connection got id {cid!r} with all {SIZE} ids in use", key="overfull")
        self.seen(cid, s)
        return cid

    async def remove(self, cid):
        self.live.pop(cid)
        await self.control.remove(cid)

    def pick(self, i):
        """the i-th live id in the order of arrival"""
        if len(self.order) > 2 * len(self.live) + 10:
            self.order = [x for x in self.order if x in self.live]
        alive = [x for x in self.order if x in self.live]
        # an id may occur several times in the order of arrivals
        return alive[i % len(alive)]


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError("the registry waits for something")


async def stub_op(m, op):
    k = op["op"]
    if k == "churn":
        # n arrivals, each leaving at once except every survivors-th
        # the search for a free id may be linear
        for i in range(min(op["n"], max(3, 3000000 * (SIZE - len(m.live) + 1) // SIZE))):
            cid = await m.add()
            if cid is not None and not (op["every"] and i % op["every"] == op["off"] % op["every"]):
                await m.remove(cid)
    elif k == "add":
        for _ in range(op["n"]):
            await m.add()
    elif k == "fill":
        left = op["left"]
        while len(m.live) < SIZE - left:
            await m.add()
    elif k == "over":
        for _ in range(op["n"]):
            await m.add()
    elif k == "remove":
        for i in op["which"]:
            stubs = [x for x, who in m.live.items() if isinstance(who, Stub)]
            if stubs:
                # by position, also from the end
                await m.remove(stubs[i % len(stubs)])
    elif k == "drop":
        stubs = [x for x, who in m.live.items() if isinstance(who, Stub)]
        for j, cid in enumerate(stubs):
            if j % op["mod"] != 0:
                await m.remove(cid)
    elif k == "gone":
        # removing what is not there (any more) changes nothing
        for i in op["which"]:
            cid = ((m.prefix or 0) << 16) + i % SIZE
            if cid not in m.live:
                await m.control.remove(cid)
    elif k == "kill_stub":
        kinds = [KillKind.CONNECTION, KillKind.QUERY]
        for i in op["which"]:
            cid = ((m.prefix or 0) << 16) + i % SIZE
            if abs(op["foreign"]) >= SIZE * SIZE:
                cid += op["foreign"]
            elif op["foreign"]:
                cid = (((m.prefix or 0) + op["foreign"]) % SIZE << 16) + i % SIZE
            target = m.live.get(cid)
            if target is not None and not isinstance(target, Stub):
                continue
            stubs = [s for s in m.live.values() if isinstance(s, Stub)]
            for s in stubs:
                s.kills.clear()
            await m.control.kill(cid, kinds[i % 2])
            hit = [s for s in stubs if s.kills]
            check(hit == ([target] if target is not None else []), f"KILL {cid:#x} addressed {len(hit)} connections, wrong: {[x for x, s in m.live.items() if isinstance(s, Stub) and s.kills and s is not target][:3]}", key="kill-target")
            if target is not None:
                check(target.kills == [kinds[i % 2]], f"KILL {cid:#x} {kinds[i % 2]} arrived as {target.kills}", key="kill-kind")
    else:
        raise AssertionError(k)


def run_registry(case, ctx):
    sid = SERVER_IDS[case["sid"] % len(SERVER_IDS)]
    m = Model(LocalControl(server_id=sid), sid)

    async def main():
        for op in case["ops"]:
            ctx.tag(op["op"])
            await stub_op(m, op)

    drive(main())
    ctx.nontrivial((m.issued > SIZE and len(m.live) > 0) or m.full > 0)


# ---------------------------------------------------------------------------------------------- real connections
def run_served(case, ctx):
    sid = SERVER_IDS[case["sid"] % len(SERVER_IDS)]
    control = LocalControl(server_id=sid)
    m = Model(control, sid)
    gates = {}

    async def query(sess, expression, sql, attrs):
        if "slow" in sql:
            g = gates[sess.conn_id] = sess.world.gate()
            await g.wait()
        return [(1,)], ["a"]

    with World(app=App(query=query), control=control) as w:
        clients = []  # (client, id, logged in)

        def arrive(login):
            c = w.client()
            if c.greeting_err is not None:
                check(len(m.live) >= SIZE, f"a client was refused with {c.greeting_err!r} with {len(m.live)} of {SIZE} ids in use", key="refused")
                check(c.greeting_err.code == 1040, f"a client of a full server was refused with {c.greeting_err!r}", key="refused-code")
                check(c.closed, "a refused client's connection stays open", key="refused-open")
                m.full += 1
                return
            check(c.hs is not None, "a client got neither a greeting nor an error", key="no-greeting")
            check(len(m.live) < SIZE, f"a client got a greeting with all {SIZE} ids in use", key="overfull")
            m.seen(c.hs.connection_id, c)
            if login:
                check(c.login(user=b"u").kind == "ok", "login fails", key="login")
            clients.append([c, c.hs.connection_id, bool(login)])

        def gone(entry):
            clients.remove(entry)
            m.live.pop(entry[1])

        def alive_check(but=()):
            for c, cid, logged in clients:
                if (c, cid) in but:
                    continue
                check(not c.eof, f"connection {cid:#x} was closed without reason", key="closed")
                if logged:
                    check(c.ping(), f"connection {cid:#x} doesn't answer", key="closed")

        def ident_check(entry):
            c, cid, logged = entry
            got = [c.scalar(q) for q in ("SELECT CONNECTION_ID()", "select connection_id()", "SELECT connection_id() + 0 AS x")]
            check(all(int(x) == cid for x in got), f"CONNECTION_ID() is {got} on the connection with handshake id {cid}", key="connection_id")

        for op in case["ops"]:
            k = op["op"]
            ctx.tag(k)
            if k == "arrive":
                for _ in range(op["n"]):
                    arrive(op["login"])
            elif k == "ident":
                for e in clients:
                    if e[2]:
                        ident_check(e)
            elif k == "renew":
                es = [e for e in clients if e[2]]
                if es:
                    c = es[op["i"] % len(es)][0]
                    if op["how"] == "reset":
                        check(c.cmd(wire.RESET_CONNECTION).kind == "ok", "COM_RESET_CONNECTION fails", key="renew")
                    else:
                        r = c.cmd(wire.change_user(c.caps, b"other", b"", b"", 45, b"mysql_native_password", []))
                        if r.kind == "switch":
                            r = c.auth_step(b"")
                        check(r.kind == "ok", f"COM_CHANGE_USER answered {r!r}", key="renew")
                    ident_check(es[op["i"] % len(es)])
            elif k == "leave":
                if clients:
                    e = clients[op["i"] % len(clients)]
                    c = e[0]
                    how = op["how"]
                    if how == "quit" and e[2]:
                        c.send(wire.QUIT)
                    elif how == "reset":
                        c.reset_conn()
                    elif how == "garbage" and not e[2]:
                        c.send_payload(b"\xff" * 3, 1)
                    else:
                        c.eof_close()
                    w.settle()
                    if not c.closed and how == "garbage":
                        c.eof_close()
                        w.settle()
                    check(c.closed, f"the connection of a client that left ({how}) isn't closed", key="leave")
                    gone(e)
                    alive_check()
            elif k == "kill":
                es = [e for e in clients if e[2]]
                if not es:
                    continue
                killer = es[op["by"] % len(es)]
                others = [e for e in clients if e is not killer]
                target = others[op["i"] % len(others)] if others and not op["foreign"] else None
                cid = target[1] if target else (killer[1] ^ (op["foreign"] or 1 << 20)) & 0xFFFFFFFF
                if op["foreign"] >= SIZE * SIZE:
                    cid = (others[op["i"] % len(others)] if others else killer)[1] + op["foreign"]
                if target is None and cid in m.live:
                    continue
                verb = ["KILL", "KILL CONNECTION", "kill", "KILL QUERY"][op["verb"] % 4]
                if cid in m.live and isinstance(m.live[cid], Stub):
                    continue
                busy = target is not None and target[2] and op["busy"]
                if busy:
                    target[0].send(wire.com_query(b"SELECT slow", target[0].caps))
                    w.settle()
                for s in m.live.values():
                    if isinstance(s, Stub):
                        s.kills.clear()
                r = killer[0].query(f"{verb} {cid}")
                check(not r.err or target is None, f"{verb} {cid} answered {r!r}", key="kill-err")
                w.settle()
                check(not any(s.kills for s in m.live.values() if isinstance(s, Stub)), f"{verb} {cid:#x} addressed another connection", key="kill-other")
                if target is not None:
                    if "QUERY" in verb:
                        if busy:
                            rr = target[0].finish()
                            check(rr.err is not None, f"{verb} {cid:#x}: the running query answered {rr!r}", key="kill-query")
                    else:
                        check(target[0].closed, f"{verb} {cid:#x} doesn't end the connection with that id", key="kill-missed")
                        gone(target)
                    ctx.nontrivial(len(clients) > 1)
                alive_check()
            else:
                drive(stub_op(m, op))
        # whatever the server still counts as live are the connections that are alive
        if case["recount"]:
            before = len(m.live)
            drive(stub_op(m, {"op": "fill", "left": 0}))
            drive(stub_op(m, {"op": "over", "n": 1}))
            arrive(False)
            if clients:
                e = clients[0]
                e[0].eof_close()
                w.settle()
                gone(e)
                arrive(True)
                check(clients and clients[-1][0].ping(), "no service after a connection ended", key="recovery")
            alive_check()
            for e in clients:
                if e[2]:
                    ident_check(e)
        ctx.nontrivial((m.issued > SIZE and len(clients) > 0) or m.full > 0)


def run_real(case, ctx):
    """Only real connections, past the end of the sequence."""
    control = LocalControl(server_id=case["sid"])
    m = Model(control, case["sid"])
    with World(app=App(), control=control) as w:
        keep = []
        for i in range(case["n"]):
            c = w.client()
            check(c.hs is not None, "no greeting", key="no-greeting")
            m.seen(c.hs.connection_id, c)
            if i in case["keep"]:
                check(c.login(user=b"u").kind == "ok", "login fails", key="login")
                keep.append(c)
            else:
                c.eof_close()
                w.settle()
                check(c.closed, "not closed", key="leave")
                m.live.pop(c.hs.connection_id)
                w.clients.remove(c)
                w.sessions.clear()
                w.events.clear()
        for c in keep:
            check(int(c.scalar("SELECT CONNECTION_ID()")) == c.hs.connection_id, "CONNECTION_ID() differs from the handshake", key="connection_id")
        ctx.nontrivial(case["n"] > SIZE)


# ---------------------------------------------------------------------------------------------- generators
def near():
    return st.one_of(st.integers(0, 40), st.integers(SIZE - 6, SIZE + 6), st.integers(2 * SIZE - 5, 2 * SIZE + 5), st.integers(0, SIZE))


@st.composite
def stub_ops(draw, big=True):
    k = draw(st.sampled_from(["churn", "churn", "churn", "add", "add", "fill", "over", "remove", "remove", "drop", "gone", "kill_stub"]))
    if k == "churn":
        return {"op": k, "n": draw(near() if big else st.one_of(st.integers(0, 40), st.integers(SIZE - 6, SIZE + 6))), "every": draw(st.sampled_from([0, 0, 2, 3, 100, 1000, 65535, 65536, 7777])), "off": draw(st.integers(0, 100))}
    if k == "add":
        return {"op": k, "n": draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 3000)))}
    if k == "fill":
        return {"op": k, "left": draw(st.sampled_from([0, 0, 0, 1, 2, 100]))}
    if k == "over":
        return {"op": k, "n": draw(st.integers(1, 4))}
    if k == "drop":
        return {"op": k, "mod": draw(st.sampled_from([1, 2, 3, 1000, 70000]))}
    if k == "remove":
        return {"op": k, "which": draw(st.lists(st.one_of(st.integers(0, 10), st.integers(0, SIZE - 1), st.integers(SIZE - 5, SIZE - 1)), min_size=1, max_size=6))}
    which = draw(st.lists(st.one_of(st.integers(0, 10), st.integers(0, SIZE - 1)), min_size=1, max_size=3))
    return {"op": k, "which": which} if k == "gone" else {"op": k, "which": which, "foreign": draw(st.sampled_from([0, 0, 0, 1, 255, 65535, 1 << 32, 5 << 32, 1 << 64, -1 << 32]))}


@st.composite
def registry_cases(draw):
    return {"sid": draw(st.integers(0, 10)), "ops": draw(st.lists(stub_ops(), min_size=1, max_size=8))}


@st.composite
def client_op(draw):
    k = draw(st.sampled_from(["arrive", "arrive", "arrive", "ident", "renew", "leave", "leave", "kill", "kill"]))
    if k == "arrive":
        return {"op": k, "n": draw(st.integers(1, 3)), "login": draw(st.sampled_from([True, True, True, False]))}
    if k == "ident":
        return {"op": k}
    if k == "renew":
        return {"op": k, "i": draw(st.integers(0, 9)), "how": draw(st.sampled_from(["reset", "change"]))}
    if k == "leave":
        return {"op": k, "i": draw(st.integers(0, 9)), "how": draw(st.sampled_from(["quit", "eof", "reset", "garbage"]))}
    return {"op": k, "i": draw(st.integers(0, 9)), "by": draw(st.integers(0, 9)), "verb": draw(st.integers(0, 3)), "busy": draw(st.booleans()),
            "foreign": draw(st.sampled_from([0, 0, 0, 0, 1 << 16, 1 << 31, 0xFFFF0000, 1 << 15, 1 << 32, 3 << 32, 1 << 64]))}


@st.composite
def served_cases(draw):
    heavy = draw(st.integers(0, 2)) == 0
    ops = [{"op": "arrive", "n": draw(st.integers(1, 3)), "login": True}]
    for _ in range(draw(st.integers(1, 8))):
        ops.append(draw(stub_ops(big=False)) if heavy and draw(st.integers(0, 2)) == 0 else draw(client_op()))
    return {"sid": draw(st.integers(0, 10)), "ops": ops, "recount": heavy and draw(st.booleans())}


def enum_registry(tier):
    """Every server id; survivors at every position around the wrap-around; exact exhaustion and recovery of each of some ids."""
    for sid in range(len(SERVER_IDS)):
        yield {"sid": sid, "ops": [{"op": "add", "n": 3}, {"op": "churn", "n": SIZE + 5, "every": 0, "off": 0}, {"op": "add", "n": 3}, {"op": "fill", "left": 0}, {"op": "over", "n": 2}, {"op": "remove", "which": [5]}, {"op": "add", "n": 1},
                                   {"op": "over", "n": 1}, {"op": "remove", "which": [0, 65530, 17]}, {"op": "add", "n": 3}, {"op": "over", "n": 1}, {"op": "kill_stub", "which": [0, 1, 65535], "foreign": 0}, {"op": "kill_stub", "which": [3], "foreign": 1}]}
    for first in range(0, 6):
        for run_ in (1, 2, 5):
            # survivors first..first+run_ right at the end, and the beginning, of the sequence
            yield {"sid": first, "ops": [{"op": "churn", "n": first, "every": 0, "off": 0}, {"op": "add", "n": run_}, {"op": "churn", "n": SIZE - first - run_ - 2, "every": 0, "off": 0}, {"op": "add", "n": 4}, {"op": "churn", "n": SIZE, "every": 0, "off": 0}, {"op": "add", "n": 3}]}
    for pos in (0, 1, 100, 65534, 65535):
        yield {"sid": 1, "ops": [{"op": "churn", "n": 777, "every": 0, "off": 0}, {"op": "fill", "left": 0}] + [{"op": "remove", "which": [pos]}, {"op": "over", "n": 2}] * 3}


def enum_real(tier):
    # small ones, and one past the end of the sequence
    for i in range(4):
        yield {"sid": [0, 65535, 7, 65536][i], "n": 300, "keep": [0, 1, 5, 250 + i]}
    for i in range(4 if tier == "thorough" else 1):
        yield {"sid": [0, 65535, 7, 65536][i], "n": SIZE + 300, "keep": [0, 1, 2, 5, 100, 65534, 65535, 65536 + i, 65540]}


CAMPAIGNS = [
    Campaign("exhaustion", run_registry, enum=enum_registry, cpu=60),
    Campaign("registry", run_registry, strategy=registry_cases, quick=240, thorough=6000, cpu=90),
    Campaign("served", run_served, strategy=served_cases, quick=500, thorough=12000, cpu=90),
    Campaign("real", run_real, enum=enum_real, cpu=600),
]
