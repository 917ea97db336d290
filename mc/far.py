"""A stream of enormous size of which only a window is kept: to work at positions that no real test file reaches."""
import io


class Far(io.BufferedIOBase):
    """Bytes before `base` are zero and may not be touched."""

    def __init__(self, base, content=b"", offset=0):
        super().__init__()
        self.base, self.mem, self.pos = base, bytearray(content), base + offset

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += self.base + len(self.mem)
        if pos < self.base:
            raise AssertionError(f"seek to {pos}, before {self.base}")
        self.pos = pos
        return pos

    def read(self, n=-1):
        i = self.pos - self.base
        out = bytes(self.mem[i:] if n is None or n < 0 else self.mem[i : i + n])
        self.pos += len(out)
        return out

    read1 = read

    def readinto(self, b):
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, data):
        i = self.pos - self.base
        data = bytes(data)
        if i > len(self.mem):
            self.mem.extend(bytes(i - len(self.mem)))
        self.mem[i : i + len(data)] = data
        self.pos += len(data)
        return len(data)
