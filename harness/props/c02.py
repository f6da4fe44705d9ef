"""C02 - a password proof is accepted iff it fits this connection's nonce and secret."""
import hashlib

from hypothesis import strategies as st

import wire
from authlib import scramble, sha1, stored
from runner import Campaign
from world import App, ClearPlugin, NativePasswordAuthPlugin, NoLoginAuthPlugin, Provider, User, World, check

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("cases = account (password/secondary/none/malformed hash) x response mutation x route to the plugin x other "
        "connections opened in between; non-trivial = a response that must be rejected although derived from a valid "
        "one, or a response that must be accepted (i.e. the oracle decides accept/reject; don't-care cases excluded)")
ASSUMPTIONS = ["SHA-1 from hashlib", "a 20-byte scramble with extra bytes behind it may be accepted or refused"]

SEEN_NONCES = {}
ROUTES = ["optimistic", "switch", "switch_other_default", "cu_reuse", "cu_switch", "cu_more"]


def hash_of(case):
    pw = case["pw"]
    kind = case.get("hash", "normal")
    if pw is None:
        return case.get("nohash", None)
    h = stored(pw)
    if kind == "normal":
        return h
    if kind == "upper":
        return h.upper()
    if kind == "star":
        return "*" + h
    if kind == "odd":
        return h[:-1]
    if kind == "short":
        return h[:20]
    if kind == "nonhex":
        return "zz" + h[2:]
    if kind == "single":
        return sha1(pw.encode()).hex()
    if kind == "emptysha":
        return sha1(b"").hex()
    if kind == "plain":
        return pw
    if kind == "long":
        return h + "00"
    raise ValueError(kind)


def note_nonce(n, where):
    check(len(n) == 20, lambda: f"nonce {n!r} in {where} is not 20 bytes")
    check(b"\0" not in n, lambda: f"nonce {n!r} contains NUL")
    check(n not in SEEN_NONCES, lambda: f"nonce {n!r} issued twice ({where})")
    SEEN_NONCES[n] = where


def hs_nonce(c):
    d = c.hs.auth_data
    check(len(d) == 21 and d[20] == 0 and c.hs.auth_len == 21, lambda: f"handshake auth data malformed: {d!r} len={c.hs.auth_len}")
    return d[:20]


def mutate(case, nonce, other_nonce):
    data, verdict = mutate1(case, nonce, other_nonce)
    if data == b"" and case["pw"] is None:
        return b"", (True if not case.get("old") else None)
    return data, verdict


def mutate1(case, nonce, other_nonce):
    """(response, verdict): verdict True = must accept, False = must reject, None = don't care."""
    pw, old, kind = case["pw"], case["old"], case["mut"]
    good_hash = case.get("hash", "normal") in ("normal", "upper")
    base_pw = old if case.get("use_old") and old is not None else pw
    if kind[0] == "empty":
        if pw is None:
            return b"", (True if not case.get("old") else None)
        return b"", False
    if base_pw is None:
        # account without password: any non-empty response is not the scramble of anything
        r = {"exact": scramble("", nonce), "zeros": bytes(20)}.get(kind[0], bytes(range(20)))
        if kind[0] == "trunc":
            r = r[: max(1, kind[1])]
        return r, False
    exact = scramble(base_pw, nonce)
    valid_secret = (base_pw is old and old is not None and case.get("use_old")) or good_hash
    if kind[0] == "exact":
        return exact, bool(valid_secret)
    if kind[0] == "flip":
        b = bytearray(exact)
        b[kind[1] // 8] ^= 1 << (kind[1] % 8)
        return bytes(b), False
    if kind[0] == "trunc":
        return exact[: kind[1]], False
    if kind[0] == "junk":
        return exact + b"\0" * kind[1] + b"x" * (kind[1] % 3), (None if valid_secret else False)
    if kind[0] == "front":
        return b"x" * kind[1] + exact, False
    if kind[0] == "othernonce":
        return scramble(base_pw, other_nonce), False
    if kind[0] == "wrongpw":
        return scramble(base_pw + "x", nonce), False
    if kind[0] == "zeros":
        return bytes(20), False
    if kind[0] == "plainpw":
        return base_pw.encode() + b"\0", False
    if kind[0] == "sha":  # knowing the stored hash is not enough
        h = sha1(sha1(base_pw.encode()))
        return [h, sha1(nonce + h), bytes(a ^ b for a, b in zip(h, sha1(nonce + h)))][kind[1] % 3], False
    if kind[0] == "short_preimage":
        # satisfies sha1(response xor mask) == stored with a response shorter than 20 bytes
        h = bytes.fromhex(hash_of(case)) if case["hash"] in ("single", "emptysha") else b"\0" * 20
        pre = base_pw.encode() if case["hash"] == "single" else b""
        mask = sha1(nonce + h)
        if len(pre) >= 20:
            return pre[:19], False
        return bytes(a ^ b for a, b in zip(pre, mask)), False
    raise ValueError(kind)


def run(case, ctx):
    SEEN_NONCES.clear() if len(SEEN_NONCES) > 200000 else None
    route = case["route"]
    user = User(name=case.get("canon") or "alice", auth_string=hash_of(case),
                old_auth_string=stored(case["old"]) if case["old"] is not None else None,
                auth_plugin="mysql_native_password")
    boot_user = User(name="boot", auth_plugin="clear_test" if route in ("cu_more",) else "mysql_native_password")
    clear = ClearPlugin(lambda u, p: u)
    native = NativePasswordAuthPlugin()
    plugins = {"optimistic": [native, clear], "switch": [native, clear], "switch_other_default": [clear, native],
               "cu_reuse": [native, clear], "cu_switch": [native, clear], "cu_more": [clear, native]}[route]
    provider = Provider(users={"alice": user, "boot": boot_user, "other": user}, plugins=plugins)
    caps = wire.FULL_CAPS if case.get("lenenc", True) else wire.FULL_CAPS & ~wire.LENENC_AUTH
    with World(app=App(query=lambda s, e, q, a: ([(1,)], ["a"])), provider=provider) as w:
        c = w.client(caps)
        default_native = plugins[0] is native
        if default_native:
            note_nonce(hs_nonce(c), "handshake")
        others = []

        def extra():
            o = w.client(caps)
            if default_native:
                note_nonce(hs_nonce(o), "handshake of another connection")
            others.append(o)
            return o.hs.scramble

        for _ in range(case.get("extra", 1)):
            other_nonce = extra()
        if not default_native:
            other_nonce = b"0123456789abcdefghij"

        nonce = c.hs.scramble
        data = expected = None

        def answer_switch(r, n):
            nonlocal nonce, data, expected
            if r.kind == "switch":
                name, d = r.payload[1:].split(b"\0", 1)
                check(name == b"mysql_native_password", f"switch to {name!r}")
            else:
                d = r.payload[1:]
            check(len(d) == 21 and d[20:] == b"\0", lambda: f"auth data in {r.kind} is {d!r}")
            nonce = d[:20]
            note_nonce(nonce, r.kind)
            for _ in range(case.get("extra", 1)):
                on = extra()
            data, expected = mutate(case, nonce, other_nonce if not default_native else on if case.get("extra", 1) else other_nonce)
            return data

        switched = [0]

        def sw(r, n):
            switched[0] += 1
            return answer_switch(r, n)

        if route == "optimistic":
            data, expected = mutate(case, nonce, other_nonce)
            r = c.login(user=b"alice", auth=data, plugin=b"mysql_native_password", auth_switch=sw)
            check(switched[0] == 0, "an optimistic login triggered another round trip")
        elif route in ("switch", "switch_other_default"):
            r = c.login(user=b"alice", auth=b"ignored\0", plugin=b"caching_sha2_password", auth_switch=sw)
            check(switched[0] == 1, lambda: f"expected one auth switch, saw {switched[0]} ({r!r})")
        else:
            r0 = c.login(user=b"boot", auth=b"pw\0" if route == "cu_more" else b"",
                         plugin=b"mysql_clear_password" if route == "cu_more" else b"mysql_native_password")
            check(r0.kind == "ok", lambda: f"bootstrap login refused: {r0!r}")
            c.parser = wire.Parser("auth", c.caps)
            if route == "cu_reuse":
                for _ in range(case.get("extra", 1)):
                    other_nonce = extra()
                data, expected = mutate(case, nonce, other_nonce)
                pl = wire.change_user(c.caps, b"alice", data[:255], b"", 45, b"mysql_native_password")
            elif route == "cu_switch":
                pl = wire.change_user(c.caps, b"alice", b"zz", b"", 45, b"caching_sha2_password")
            else:
                pl = wire.change_user(c.caps, b"alice", scramble(case["pw"] or "", nonce), b"", 45, b"mysql_native_password")
            c.send_payload(pl, 0)
            w.settle()
            check(c.pump(), "COM_CHANGE_USER unanswered")
            r = c.parser.r
            n = 0
            while r is not None and r.kind in ("switch", "more") and n < 3:
                n += 1
                r = c.auth_step(sw(r, n))
            check(r is not None, "authentication exchange unanswered")
            check((switched[0] > 0) == (route != "cu_reuse"), lambda: f"{switched[0]} round trips on route {route}")
        ctx.tag(route, case["mut"][0], f"expect-{expected}")
        ctx.nontrivial(expected is not None)
        ok = r.kind == "ok"
        check(ok or r.kind == "err", lambda: f"exchange ended with {r!r}")
        if expected is True:
            check(ok, lambda: f"valid proof refused on route {route}: {r!r} (password {case['pw']!r}, old {case['old']!r}, "
                              f"nonce {nonce!r})")
        if expected is False:
            check(not ok, lambda: f"invalid proof ({case['mut']}) accepted on route {route} (hash kind "
                                  f"{case.get('hash')}, response {data!r}, nonce {nonce!r})")
        if ok:
            s = w.sessions[0]
            check(s.username == user.name, lambda: f"session runs as {s.username!r}, plugin vouched for {user.name!r}")
            check(c.scalar("SELECT CURRENT_USER()").decode() == user.name, "CURRENT_USER() is not the authenticated identity")


def run_clear(case, ctx):
    """clear-password plugin = the application's check; no-login never."""
    pw, sent = case["pw"], case["sent"]
    ident = case["ident"]
    clear = ClearPlugin(lambda u, p: ident if (u == "carol" and p == pw) else None)
    nologin, native = NoLoginAuthPlugin(), NativePasswordAuthPlugin()
    plug = {"clear": clear, "nologin": nologin, "native": native}
    order = case["order"]
    provider = Provider(users={
        "carol": User(name="carol", auth_plugin="clear_test"),
        "dave": User(name="dave", auth_plugin="mysql_no_login", auth_string=stored(pw)),
        "boot": User(name="boot", auth_plugin=plug[order[0]].name if order[0] != "nologin" else "mysql_native_password"),
    }, plugins=[plug[o] for o in order])
    target = case["user"]
    with World(app=App(), provider=provider) as w:
        c = w.client()
        raw = bytes.fromhex(sent[1]) if sent[0] == "hex" else sent[1].encode("utf-8") + b"\0"
        calls0 = len(clear.calls)
        route = case["route"]
        if route == "cu":
            # get in through native first
            r0 = c.login(user=b"boot2", auth=b"", plugin=b"mysql_native_password") if False else None
        n = [0]

        def sw(r, k):
            n[0] += 1
            return raw
        plugin = b"mysql_clear_password" if case["announce"] else b"mysql_native_password"
        r = c.login(user=target.encode(), auth=raw[:250], plugin=plugin, auth_switch=sw)
        if len(raw) > 250 and n[0] == 0:
            raw = raw[:250]
        ok = r.kind == "ok"
        if target == "dave":
            ctx.nontrivial()
            ctx.tag("nologin")
            check(not ok, f"no-login account authenticated (route {route}, announce {plugin!r}, plugins {order})")
            return
        new = clear.calls[calls0:]
        accepted = [p for u, p in new if u == "carol" and p == pw]
        ctx.tag("clear-accept" if ok else "clear-reject")
        ctx.nontrivial()
        check(ok == bool(accepted), lambda: f"server verdict {r!r} but the application's check was called with {new}")
        if b"\0" in raw:
            body = raw[: raw.index(b"\0")]
            try:
                text = body.decode("utf-8")
            except UnicodeDecodeError:
                check(not ok, "undecodable password accepted")
                return
            check(new == [("carol", text)], lambda: f"check called with {new}, transmitted {text!r}")
            check(ok == (text == pw), lambda: f"password {text!r} vs account {pw!r}: {r!r}")
        if ok:
            s = w.sessions[0]
            check(s.username == ident, lambda: f"session user {s.username!r}, vouched identity {ident!r}")


def run_cross(case, ctx):
    """Several connections in flight on one server: each one's nonce works on it and only on it."""
    native = NativePasswordAuthPlugin()
    pw = case["pw"]
    switch = case["switch"]
    clear = ClearPlugin(lambda u, p: None)
    provider = Provider(users={"alice": User(name="alice", auth_string=stored(pw), auth_plugin="mysql_native_password")},
                        plugins=[clear, native] if switch else [native])
    with World(app=App(), provider=provider) as w:
        cs = [w.client() for _ in range(case["n"])]
        nonces = []
        for c in cs:
            if switch:
                c.parser = wire.Parser("auth", c.caps)
                c.send_payload(wire.handshake_response(c.caps, b"alice", b"", None, b"whatever"), c.expect_seq)
                w.settle()
                check(c.pump() and c.parser.r.kind == "switch", "no auth switch")
                d = c.parser.r.payload[1:].split(b"\0", 1)[1]
                check(len(d) == 21 and d[20:] == b"\0", lambda: f"auth data in switch is {d!r}")
                nonces.append(d[:20])
            else:
                nonces.append(hs_nonce(c))
            note_nonce(nonces[-1], "cross")
        for i in case["order"]:
            i %= len(cs)
            c = cs[i]
            if c is None:
                continue
            j = case["use"][i % len(case["use"])] % len(cs)
            data = scramble(pw, nonces[j])
            payload = data if switch else wire.handshake_response(c.caps, b"alice", data, None, b"mysql_native_password")
            r = c.auth_step(payload)
            check(r is not None, "unanswered")
            check((r.kind == "ok") == (i == j), lambda: f"connection {i} with a response for connection {j}'s nonce: {r!r}")
            ctx.tag("own" if i == j else "foreign")
            ctx.nontrivial()
            cs[i] = None


pws = st.one_of(st.sampled_from(["a", "s3cret", "p\u00e4ss", "\u2665\U0001F600", " ", "'; --", "x" * 40, "\x01"]),
                st.text(st.characters(exclude_categories=["Cs"]), min_size=1, max_size=30))
muts = st.one_of(
    st.sampled_from([["exact", 0]] * 4 + [["empty", 0], ["othernonce", 0], ["wrongpw", 0], ["zeros", 0], ["plainpw", 0]]),
    st.integers(0, 159).map(lambda i: ["flip", i]), st.integers(0, 19).map(lambda i: ["trunc", i]),
    st.integers(1, 30).map(lambda i: ["junk", i]), st.integers(1, 5).map(lambda i: ["front", i]),
    st.integers(0, 2).map(lambda i: ["sha", i]),
)


@st.composite
def cases(draw):
    hk = draw(st.sampled_from(["normal"] * 5 + ["upper", "star", "odd", "short", "nonhex", "single", "emptysha", "plain", "long"]))
    pw = draw(st.one_of(pws, pws, st.none()))
    mut = draw(muts)
    if pw is not None and hk in ("single", "emptysha") and draw(st.booleans()):
        mut = ["short_preimage", 0]
    old = draw(st.one_of(st.none(), pws))
    if pw is not None and old == pw:
        old = None
    if pw is None and mut[0] in ("flip", "junk", "front", "sha", "short_preimage", "wrongpw", "plainpw", "othernonce"):
        if old is None:
            mut = ["exact", 0]
    use_old = old is not None and mut[0] != "short_preimage" and draw(st.booleans())
    if hk in ("single", "plain") and pw is not None and len(pw) < 1:
        hk = "normal"
    if hk == "plain" and pw is not None:
        try:
            bytes.fromhex(pw)
            hk = "normal"
        except ValueError:
            pass
    return {"pw": pw, "old": old, "hash": hk, "nohash": draw(st.sampled_from([None, ""])), "mut": mut,
            "use_old": use_old, "route": draw(st.sampled_from(ROUTES)), "extra": draw(st.integers(1, 3)),
            "lenenc": draw(st.booleans()), "canon": draw(st.sampled_from([None, None, "canonical", "\u00e9lan"]))}


def enum(tier):
    """Every single-bit corruption and truncation on every route (both secrets)."""
    base = {"pw": "s3cret", "old": "old-pw", "hash": "normal", "extra": 1}
    for route in ROUTES:
        for use_old in (False, True):
            b = dict(base, route=route, use_old=use_old)
            yield dict(b, mut=["exact", 0])
            for i in range(160):
                yield dict(b, mut=["flip", i])
            for i in range(20):
                yield dict(b, mut=["trunc", i])
            for k in ("empty", "othernonce", "wrongpw", "zeros", "plainpw"):
                yield dict(b, mut=[k, 0])
            for i in range(3):
                yield dict(b, mut=["sha", i])
        for nohash in (None, ""):
            yield {"pw": None, "old": None, "nohash": nohash, "route": route, "mut": ["empty", 0], "extra": 1}
            yield {"pw": None, "old": None, "nohash": nohash, "route": route, "mut": ["exact", 0], "extra": 1}
            yield {"pw": None, "old": None, "nohash": nohash, "route": route, "mut": ["zeros", 0], "extra": 1}


INTRUDERS = [b"\xff", b"\xc3", b"\xe2\x82", b"\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\xf0\x9f", b"\xef\xbb\xbf", b"\0",
             b" ", b"\n", b"\t", b"\r\n", b"\xe2\x80\x8b", b"\xcc\x81", b"?", b"\xef\xbf\xbd", b"%", b"\\", b"'"]


def intrude(pw, at, what):
    """The password's bytes with some other bytes in front of, within or behind them."""
    b = pw.encode("utf-8")
    at %= len(b) + 1
    return b[:at] + what + b[at:] + b"\0"


@st.composite
def clear_cases(draw):
    pw = draw(st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), min_size=0, max_size=20))
    sent = draw(st.one_of(
        st.just(["text", pw]), st.just(["text", pw]),
        st.sampled_from([["text", pw + "x"], ["text", pw[:-1]], ["text", pw.swapcase()], ["text", " " + pw], ["text", pw + " "]]),
        st.text(st.characters(exclude_categories=["Cs"]), max_size=10).map(lambda t: ["text", t]),
        st.binary(max_size=24).map(lambda b: ["hex", b.hex()]),
        # the password with something in it that must not be ignored, normalised or replaced
        st.tuples(st.integers(0, 80), st.sampled_from(INTRUDERS)).map(lambda t: ["hex", intrude(pw, *t).hex()])))
    return {"pw": pw, "sent": sent, "ident": draw(st.sampled_from(["carol", "someone else", "root", "\u00fc"])),
            "order": draw(st.sampled_from([["clear", "nologin", "native"], ["native", "clear", "nologin"],
                                           ["nologin", "native", "clear"]])),
            "user": draw(st.sampled_from(["carol", "carol", "carol", "dave"])), "announce": draw(st.booleans()),
            "route": "hs"}


def cross_cases():
    return st.fixed_dictionaries({
        "pw": pws, "n": st.integers(2, 4), "switch": st.booleans(),
        "order": st.lists(st.integers(0, 3), min_size=1, max_size=6), "use": st.lists(st.integers(0, 3), min_size=1, max_size=4)})


# ----------------------------------------------------------------- proofs and attributes of every size
ATTRS = [[], [0], [1, 1, 1], [100], [249], [250], [251], [252], [255], [256], [3, 251, 0, 300], [1000] * 3, [65534], [65536], [70000, 1]]


def run_carry(case, ctx):
    """However long the proof and whatever connection attributes come with it, the verdict is the same."""
    pw = "".join(chr(97 + i % 26) for i in range(case["len"] - 1)) + "\u00fc"[: case["len"] % 2]
    clear = ClearPlugin(lambda u, p: "vouched" if u == "carol" and p == pw else None)
    native = NativePasswordAuthPlugin()
    provider = Provider(users={"carol": User(name="carol", auth_plugin="clear_test"), "boot": User(name="boot", auth_plugin="mysql_native_password"),
                               "nat": User(name="nat", auth_plugin="mysql_native_password", auth_string=stored(pw))},
                        plugins=[clear, native] if case["first"] else [native, clear])
    caps = wire.FULL_CAPS if case["lenenc"] else wire.FULL_CAPS & ~wire.LENENC_AUTH
    # (name lengths vary, too)
    attrs = [(b"k%d" % i + b"n" * (n if i % 2 else 0), b"v" * n) for i, n in enumerate(case["attrs"])]
    with World(app=App(), provider=provider) as w:
        c = w.client(caps)
        user, plugin = (b"nat", b"mysql_native_password") if case["native"] else (b"carol", b"mysql_clear_password")
        sent = pw if case["good"] else pw[:-1] + "!"

        def proof(nonce):
            if case["native"]:
                return scramble(sent, nonce)
            return sent.encode() + b"\0"
        if case["cu"]:
            r = c.login(user=b"boot", auth=b"", auth_switch=lambda r, n: b"")
            check(r.kind == "ok", lambda: f"login of an account without password: {r!r}", key="carry-boot")
            nonce = c.hs.auth_data[:20]
            raw = proof(nonce)
            if case["native"] and case["first"]:
                # the handshake was the clear-password plugin's: there is no nonce yet
                raw = b"x" * 20
            r = c.cmd(wire.change_user(c.caps, user, raw, b"", 45, plugin, attrs))
        else:
            raw = b"" if case["native"] and case["first"] else proof(c.hs.auth_data[:20])
            r = c.login(user=user, auth=raw, plugin=plugin, attrs=attrs, auth_switch=lambda r, n: proof(r.payload[1:21] if r.kind == "more" else r.payload[1:].split(b"\0", 1)[1][:20]))
        if r.kind == "more":
            r = c.auth_step(proof(r.payload[1:21]))
        check((r.kind == "ok") == case["good"], lambda: f"{'the right' if case['good'] else 'a wrong'} password of {case['len']} characters, {len(raw)} bytes, with attributes of {case['attrs']} was answered with {r!r}", key="carry")
        if case["good"]:
            s = w.sessions[0]
            want = "nat" if case["native"] else "vouched"
            check(s.username == want, lambda: f"session user {s.username!r} instead of {want!r}", key="carry-user")
            check(c.ping(), "the connection isn't usable", key="carry")
        ctx.nontrivial()


def enum_carry(tier):
    k = 0
    for n in (2, 20, 21, 100, 127, 128, 200, 249, 250, 251, 252, 253, 254, 255, 300, 4000, 70000):
        for ai, attrs in enumerate(ATTRS):
            for cu in (False, True):
                for lenenc in (True, False):
                    for native in (False, True):
                        # the clear password has one or two bytes more than characters
                        if not native and n + 2 > 256 and (cu or not lenenc):
                            continue
                        k += 1
                        if native and n > 21 or tier == "quick" and k % 2 and not (248 < n < 260 or ai in (6, 10)):
                            continue
                        for good in ((True, False) if not native and 248 < n < 256 else ((k + ai) % 3 != 0,)):
                            for first in ((True, False) if good and not native and 248 < n < 256 else (bool(k // 2 % 2),)):
                                yield {"len": n, "attrs": attrs, "cu": cu, "lenenc": lenenc, "native": native, "good": good, "first": first}


CAMPAIGNS = [
    Campaign("carry", run_carry, enum=enum_carry, exhaustive=True),
    Campaign("enum", run, enum=enum, exhaustive=True),
    Campaign("random", run, strategy=cases, quick=16000, thorough=200000),
    Campaign("clear", run_clear, strategy=clear_cases, quick=8000, thorough=80000),
    Campaign("cross", run_cross, strategy=cross_cases, quick=6000, thorough=60000),
]
