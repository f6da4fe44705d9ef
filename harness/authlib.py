"""Independent account model: what counts as a valid proof, and how to build responses."""
import hashlib

import boot  # noqa: F401
from mysql_mimic.auth import AuthPlugin, Forbidden, NativePasswordAuthPlugin, NoLoginAuthPlugin, Success, User
from world import ClearPlugin, Provider


def sha1(b):
    return hashlib.sha1(b).digest()


def scramble(password: str, nonce: bytes) -> bytes:
    h1 = sha1(password.encode("utf-8"))
    return bytes(a ^ b for a, b in zip(h1, sha1(nonce + sha1(h1))))


def stored(password: str) -> str:
    return sha1(sha1(password.encode("utf-8"))).hex()


class MultiPlugin(AuthPlugin):
    """Two-step conversation plugin (AuthMoreData round trips)."""

    name = "multi_test"
    client_plugin_name = "multi_client"

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"first challenge....." + b"\0"
        auth_info = yield b"second challenge"
        if auth_info.data == b"open sesame":
            yield Success(auth_info.user.name)
        else:
            yield Forbidden("wrong phrase")


class AnyClientPlugin(AuthPlugin):
    """A plugin that works with any client plugin (client_plugin_name None) and accepts one phrase."""

    name = "any_test"

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"anything goes......." + b"\0"
        if auth_info.data.rstrip(b"\0") == b"phrase":
            yield Success(auth_info.user.name)
        else:
            yield Forbidden()


class GuestPlugin(ClearPlugin):
    """Another plugin with the client plugin of "clear", which accepts every password."""

    name = "guest_test"


class NeverPlugin(NativePasswordAuthPlugin):
    """Another plugin with the client plugin of "native", which accepts nobody."""

    name = "never_test"

    def password_matches(self, user, scramble, nonce):
        return False


class QuietPlugin(AuthPlugin):
    """Three round trips, with challenges that are empty or a lone NUL; the right phrase is due in the last two."""

    name = "quiet_test"
    client_plugin_name = "quiet_client"

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"quiet challenge....." + b"\0"
        auth_info = yield b""
        first = auth_info.data
        auth_info = yield b"\0"
        if first == auth_info.data == b"psst":
            yield Success(auth_info.user.name)
        else:
            yield Forbidden("")


class MutePlugin(AuthPlugin):
    """A plugin that never comes to a decision: it ends, or comes up with something that isn't one."""

    name = "mute_test"

    async def auth(self, auth_info=None):
        if not auth_info:
            auth_info = yield b"mute challenge......" + b"\0"
        if len(auth_info.data) % 2:
            return
        yield None


CLIENT_PLUGIN = {"native": "mysql_native_password", "clear": "mysql_clear_password", "nologin": None,
                 "multi": "multi_client", "any": None, "guest": "mysql_clear_password",
                 "never": "mysql_native_password", "quiet": "quiet_client", "mute": None}
SERVER_PLUGIN = {"native": "mysql_native_password", "clear": "clear_test", "nologin": "mysql_no_login",
                 "multi": "multi_test", "any": "any_test", "guest": "guest_test", "never": "never_test",
                 "quiet": "quiet_test", "mute": "mute_test"}
# name -> (plugin key or None / "bogus", password, old password, identity)
ACCOUNTS = {
    "alice": ("native", "s3cret", None, "alice"),
    "bob": ("native", None, None, "bob"),
    "rita": ("native", "new-pw", "old-pw", "rita"),
    "carol": ("clear", "clear-pw", None, "carol"),
    "proxy": ("clear", "proxy-pw", None, "carol"),
    "dave": ("nologin", "x", None, "dave"),
    "mara": ("multi", "open sesame", None, "mara"),
    "andy": ("any", "phrase", None, "andy"),
    "frank": (None, "s3cret", None, "frank"),
    "gina": ("bogus", "gina-pw", None, "gina"),
    "gus": ("guest", "whatever", None, "gus"),
    "nina": ("never", "s3cret", None, "nina"),
    "anon": ("clear", "anon-pw", None, ""),
    "quinn": ("quiet", "psst", None, "quinn"),
    "mute": ("mute", "mute-pw", None, "mute"),
    "nora": ("never", None, None, "nora"),
}


def clear_check(username, password):
    a = ACCOUNTS.get(username)
    if a is None or a[1] is None or a[1] != password:
        return None
    return a[3]


def make_provider(plugins):
    objs = []
    for p in plugins:
        objs.append({"native": NativePasswordAuthPlugin, "nologin": NoLoginAuthPlugin, "multi": MultiPlugin,
                     "any": AnyClientPlugin, "clear": lambda: ClearPlugin(clear_check), "never": NeverPlugin,
                     "quiet": QuietPlugin, "mute": MutePlugin,
                     "guest": lambda: GuestPlugin(lambda u, p: u)}[p]())
    users = {}
    for name, (pl, pw, old, _) in ACCOUNTS.items():
        users[name] = User(
            name=name, auth_string=stored(pw) if pw is not None else None,
            old_auth_string=stored(old) if old is not None else None,
            auth_plugin=None if pl is None else SERVER_PLUGIN.get(pl, "no_such_plugin"),
        )
    return Provider(users=users, plugins=objs)


def effective(user, plugins):
    """Key of the server plugin that decides for this account."""
    a = ACCOUNTS.get(user)
    if a is None:
        return None
    return a[0] if a[0] in plugins else plugins[0]


def valid_proof(user, plugins, responses, nonces):
    """May the exchange with these client responses (in order) end in success?"""
    eff = effective(user, plugins)
    if eff is None or eff in ("nologin", "never", "mute"):
        return False
    _, pw, old, _ = ACCOUNTS[user]
    last = responses[-1]
    if eff == "native":
        if pw is None:
            return last == b""
        for n in nonces:
            for p in (pw, old):
                if p is not None and last[:20] == scramble(p, n):
                    return True
        return False
    if eff == "guest":
        return True
    if eff == "clear":
        if b"\0" in last:
            last = last[: last.index(b"\0")]
        try:
            return clear_check(user, last.decode("utf-8")) is not None
        except UnicodeDecodeError:
            return False
    if eff == "multi":
        return last == b"open sesame" and len(responses) >= 2
    if eff == "quiet":
        return len(responses) >= 3 and responses[-2:] == [b"psst", b"psst"]
    if eff == "any":
        return last.rstrip(b"\0") == b"phrase"
    return False


def identity(user, plugins):
    return ACCOUNTS[user][3] if effective(user, plugins) == "clear" else user


def build(kind, user, plugins, nonce, step=0, seedbytes=b"\x17\x99"):
    """Client auth response of the given kind for this account's effective plugin."""
    eff = effective(user, plugins) or "native"
    pw = ACCOUNTS.get(user, (None, "whatever", None, None))[1]
    old = ACCOUNTS.get(user, (None, None, None, None))[2]
    if eff in ("native", "never"):
        right = scramble(pw, nonce) if pw is not None else b""
    elif eff in ("clear", "guest"):
        right = (pw or "").encode() + b"\0"
    elif eff == "multi":
        right = b"open sesame" if step else b"hello"
    elif eff == "quiet":
        right = b"psst" if step else b"hi"
    elif eff == "mute":
        right = b"mute-pw"
    elif eff == "any":
        right = b"phrase\0"
    else:
        right = b"whatever"
    if kind == "right":
        return right
    if kind == "old":
        return scramble(old or "old-pw", nonce)
    if kind == "wrong":
        return scramble("not the password", nonce) if eff == "native" else b"not the password\0"
    if kind == "othernonce":
        return scramble(pw or "", b"0123456789abcdefghij")
    if kind == "trunc":
        return right[:-1]
    if kind == "junk":
        return right + b"\0junk"
    if kind == "absent":
        return b""
    if kind == "nul":
        return b"\0"
    if kind == "zeros":
        return bytes(20)
    if kind == "garbage":
        return (seedbytes * 16)[:20]
    if kind == "badutf8":
        return b"\xff\xfe\x80\0"
    if kind == "cmd":
        return b"\x03SELECT a FROM t"
    raise ValueError(kind)


KINDS = ["right", "wrong", "trunc", "garbage", "absent", "junk", "othernonce", "nul", "zeros", "old", "badutf8", "cmd"]
