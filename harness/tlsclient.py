"""TLS client over memory BIOs for the simulated sockets."""
import os
import ssl

HERE = os.path.dirname(os.path.abspath(__file__))


def server_context():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(os.path.join(HERE, "tls.crt"), os.path.join(HERE, "tls.key"))
    return c


class TlsClient:
    def __init__(self, version=None):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        if version == "1.2":
            ctx.maximum_version = ssl.TLSVersion.TLSv1_2
        self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.obj = ctx.wrap_bio(self.inb, self.outb)
        self.rx_pos = 0
        self.done = False
        self.buf = bytearray()

    def start(self):
        try:
            self.obj.do_handshake()
        except ssl.SSLWantReadError:
            pass
        return self.outb.read()

    def take(self, sock):
        data = bytes(sock.tx[self.rx_pos:])
        self.rx_pos = len(sock.tx)
        if data:
            self.inb.write(data)

    def advance(self, sock):
        self.take(sock)
        if not self.done:
            try:
                self.obj.do_handshake()
                self.done = True
            except ssl.SSLWantReadError:
                pass
        return self.outb.read()

    def encrypt(self, data):
        out = b""
        for i in range(0, len(data), 1 << 20):
            self.obj.write(data[i:i + (1 << 20)])
            out += self.outb.read()
        return out

    def plain(self, sock):
        self.take(sock)
        while True:
            try:
                d = self.obj.read(1 << 16)
            except (ssl.SSLWantReadError, ssl.SSLZeroReturnError, ssl.SSLEOFError):
                break
            if not d:
                break
            self.buf += d
        return self.buf
