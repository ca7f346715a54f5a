"""Standard output streams of simulated processes, shaped like the interpreter's own."""
import io


class Sink(io.RawIOBase):
    """The file descriptor behind a standard output that always works."""

    def __init__(self):
        super().__init__()
        self.data = bytearray()

    def writable(self):
        return True

    def fileno(self):
        return 1

    def write(self, b):
        self.data += bytes(b)
        return len(b)


class Out(io.TextIOWrapper):
    def __init__(self):
        self.sink = Sink()
        super().__init__(io.BufferedWriter(self.sink), encoding="utf-8", errors="surrogatepass")

    def getvalue(self):
        if not self.closed:
            self.flush()
        return bytes(self.sink.data).decode("utf-8", "surrogatepass")
