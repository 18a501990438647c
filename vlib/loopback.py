"""A scripted HTTP server on the loopback interface; every request is logged."""
import gzip
import socket
import struct
import threading
import time


class Server:
    """behaviour: path -> callable(sock) or tuple (kind, ...)"""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(128)
        self.port = self.sock.getsockname()[1]
        self.script = {}
        self.log = []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        threading.Thread(target=self._serve, daemon=True).start()

    def url(self, path):
        return f"http://127.0.0.1:{self.port}{path}"

    def _serve(self):
        while True:
            try:
                c, _a = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._one, args=(c,), daemon=True).start()

    def _one(self, c):
        try:
            c.settimeout(30)
            data = b""
            while b"\r\n\r\n" not in data:
                b = c.recv(65536)
                if not b:
                    return
                data += b
            path = data.split(b" ", 2)[1].decode("latin-1")
            with self.lock:
                beh = self.script.get(path, ("status", 404, b"not found"))
                if callable(beh):
                    beh = beh()
                self.log.append((path, beh[0]))
            self._answer(c, beh)
        except OSError:
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def _answer(self, c, beh):
        kind = beh[0]

        def head(status, n, extra=""):
            ln = f"Content-Length: {n}\r\n" if n is not None else ""
            return f"HTTP/1.1 {status} X\r\n{ln}Connection: close\r\n{extra}\r\n".encode()

        if kind == "ok":  # body, content type
            ct = f"Content-Type: {beh[2]}\r\n" if beh[2] else ""
            c.sendall(head(200, len(beh[1]), ct) + beh[1])
        elif kind == "gzip":
            body = gzip.compress(beh[1])
            c.sendall(head(200, len(body), "Content-Encoding: gzip\r\n") + body)
        elif kind == "chunked":
            c.sendall(head(200, None, "Transfer-Encoding: chunked\r\n"))
            for i in range(0, len(beh[1]), 7):
                part = beh[1][i:i + 7]
                c.sendall(b"%x\r\n%s\r\n" % (len(part), part))
            c.sendall(b"0\r\n\r\n")
        elif kind == "redirect":
            c.sendall(head(302, 0, f"Location: {beh[1]}\r\n"))
        elif kind == "status":
            c.sendall(head(beh[1], len(beh[2]) if beh[1] != 204 else 0) + (beh[2] if beh[1] != 204 else b""))
        elif kind == "truncate":
            c.sendall(head(200, len(beh[1])) + beh[1][:beh[2]])
        elif kind == "truncate_chunked":
            part = beh[1][:beh[2]]
            c.sendall(head(200, None, "Transfer-Encoding: chunked\r\n") + b"%x\r\n%s\r\n" % (len(part), part))
        elif kind == "truncate_gzip":
            body = gzip.compress(beh[1])
            c.sendall(head(200, len(body), "Content-Encoding: gzip\r\n") + body[:len(body) // 2])
        elif kind == "bad_gzip":
            c.sendall(head(200, len(beh[1]), "Content-Encoding: gzip\r\n") + beh[1])
        elif kind == "garbage":
            c.sendall(b"\x00\x01 nonsense\r\n\r\n" + b"x" * 50)
        elif kind == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif kind == "close":
            pass
        elif kind == "hang":
            self.stop.wait(beh[1])
        else:
            raise AssertionError(kind)
        if kind not in ("reset", "close", "hang"):
            try:
                c.shutdown(socket.SHUT_WR)
            except OSError:
                pass

    def take_log(self):
        with self.lock:
            log, self.log = self.log, []
        return log


FAILURES = ("status", "truncate", "truncate_chunked", "truncate_gzip", "bad_gzip", "garbage", "reset", "close")
