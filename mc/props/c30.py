"""C30: streams are flushed completely and closed exactly as requested."""
import gc
import gzip
import io
import itertools
import os
import tempfile

from mc import levelcases as L
from mc import ref
from mc import replaycases as R
from mc.core import Prop, Violated, require, same
from mc.props import c01, c02
from mc.props.c04 import FILE_TREES
from mc.ref import bits_int, bytes_bits

PROP = Prop("C30")
PROP.assumptions = [
    "raw streams accept at least one byte per write and deliver whole reads",
    "a stream handed over as released is used by the caller again only after the writer is closed",
]


class Boom(Exception):
    """The failure of the caller."""


# --- streams ---------------------------------------------------------------------------


class Short(io.RawIOBase):
    """A seekable raw stream in memory that accepts only part of each write: the sizes
    are taken from the pattern in turn; write number `fail` raises OSError."""

    def __init__(self, pattern=(0,), fail=None, seekable=True):
        super().__init__()
        self.mem = io.BytesIO()
        self.pattern, self.fail, self.count, self.can = pattern, fail, 0, seekable

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return self.can

    def seek(self, pos, whence=0):
        if not self.can:
            raise io.UnsupportedOperation("seek")
        return self.mem.seek(pos, whence)

    def tell(self):
        if not self.can:
            raise io.UnsupportedOperation("tell")
        return self.mem.tell()

    def write(self, b):
        if self.closed:
            raise ValueError("closed")
        n = self.pattern[self.count % len(self.pattern)]
        if self.count == self.fail:
            self.count += 1
            raise OSError(5, "injected failure")
        self.count += 1
        b = bytes(b)
        part = b if n == 0 else b[:n]
        self.mem.write(part)
        return len(part)


class NoTell:
    """Only what a reader needs: read and close."""

    def __init__(self, data):
        self._f = io.BytesIO(data)
        self.closed = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("closed")
        return self._f.read(n)

    def close(self):
        self.closed = True


class BadTell(NoTell):
    """A pipe-like stream."""

    def tell(self):
        raise OSError(29, "Illegal seek")

    def seek(self, pos, whence=0):
        raise OSError(29, "Illegal seek")


class Keep(io.BytesIO):
    """Remembers its contents when closed."""

    kept = None

    def close(self):
        if not self.closed:
            self.kept = self.getvalue()
        super().close()


class Out:
    """A stream to write to: the object given to the writer, and how to see its contents."""

    def __init__(self, ctx, kind):
        self.kind = kind
        self.path = None
        self.rd = None
        if kind == "bytes":
            self.f = Keep()
        elif kind.startswith("short"):
            self.f = Short(tuple(int(c) for c in kind[5:]))
        elif kind == "noseek":
            self.f = Short((3, 1), seekable=False)
        elif kind.startswith("buf"):  # a buffered writer with a small buffer on a short raw stream
            self.raw = Short((2, 1))
            self.f = io.BufferedWriter(self.raw, int(kind[3:]))
        elif kind == "pipe":
            self.rd, wr = os.pipe()
            self.f = io.FileIO(wr, "w")
        else:
            fd, self.path = tempfile.mkstemp(dir=ctx.scratch)
            os.close(fd)
            self.f = {
                "file": lambda: open(self.path, "wb"),
                "raw": lambda: open(self.path, "wb", buffering=0),
                "rawplus": lambda: open(self.path, "w+b", buffering=0),
                "random": lambda: open(self.path, "w+b"),
                "gzip": lambda: gzip.GzipFile(self.path, "wb", mtime=0),
            }[kind]()

    def closed(self):
        return self.f.closed

    def contents(self):
        """What has arrived; only flushes what belongs to the stream itself."""
        f = self.f
        if self.kind == "bytes":
            return f.kept if f.closed else f.getvalue()
        if not f.closed:
            f.flush()
        if self.kind.startswith("buf"):
            return self.raw.mem.getvalue()
        if self.path is None and self.rd is None:
            return f.mem.getvalue()
        if self.rd is not None:
            if not f.closed:
                f.close()
            out = b""
            while True:
                b = os.read(self.rd, 65536)
                if not b:
                    return out
                out += b
        if self.kind == "gzip":
            f.close()
            with gzip.open(self.path, "rb") as g:
                return g.read()
        with open(self.path, "rb") as g:
            return g.read()

    def done(self):
        try:
            self.f.close()
        except (OSError, ValueError):
            pass
        if self.rd is not None:
            os.close(self.rd)
        if self.path is not None:
            os.unlink(self.path)


SEEKABLE = ("bytes", "file", "raw", "rawplus", "random", "short1", "short2", "short03", "buf1", "buf5")
STREAMS = SEEKABLE + ("noseek", "pipe", "gzip")


# --- close and release histories of writers ---------------------------------------------

# p: part of a byte, b: bytes, a: align, f: flush, R: release, C: close,
# E: leave the context, X: leave the context by an exception
HOPS = "pbafRCEX"


def g_close(tier):
    n = 4 if tier == "quick" else 6
    for kind in STREAMS:
        m = n if kind in ("bytes", "raw", "short1") else n - 1
        for noclose in (False, True):
            for ln in range(0, m + 1):
                for h in itertools.product(HOPS, repeat=ln):
                    s = "".join(h)
                    # the first close or exit ends the writes; only closes and releases follow
                    first = min((s.index(c) for c in "CEX" if c in s), default=None)
                    if first is None:
                        continue  # the history is continued below with a close
                    if any(c in "pbaf" for c in s[first:]):
                        continue
                    yield kind, noclose, s


@PROP.family(g_close, "all histories of up to 4 (thorough 6) of write part of a byte, write bytes, align, flush, release, close, leave the context normally or by an exception, ending in closes; 13 kinds of streams, with and without noclose: contents, closed state, use after release, garbage collection")
def writer_histories(ctx, case):
    from dustmaker.bitio import BitIOWriter

    kind, noclose, h = case
    out = Out(ctx, kind)
    try:
        w = BitIOWriter(out.f, noclose=noclose)
        m = c01.Model(b"", 0)
        keep, shut = noclose, False
        for i, c in enumerate(h):
            ctx.step()
            if c == "p":
                c01.apply(m, w, ("w", 3, 5))
            elif c == "b":
                c01.apply(m, w, ("B", b"\x81\x3c\xe7"))
            elif c in "af":
                c01.apply(m, w, (c,))
            elif c == "R":
                w.release()
                keep = True
            elif c == "C":
                w.close()
            elif c == "E":
                with w as inner:
                    require(inner is w, "the context of a writer is not the writer")
            else:
                try:
                    with w:
                        raise Boom()
                except Boom:
                    pass
                else:
                    raise Violated("the exception of the caller was swallowed")
            if c in "CEX":
                shut = shut or not keep
            same(out.closed(), shut, f"closed state of the {kind} stream after {h[: i + 1]} (noclose={noclose})")
        del w
        gc.collect(0)
        same(out.closed(), shut, f"closed state of the {kind} stream after the writer is gone")
        want = m.final()
        if not shut:
            tail = b"TAIL"  # still usable, and positioned behind the last byte
            want += tail
            while tail:
                tail = tail[out.f.write(tail) :]
        same(out.contents(), want, f"contents of the {kind} stream after {h} (noclose={noclose})")
        ctx.state(case, want)
        ctx.outcome("closed" if shut else "released")
    finally:
        out.done()


def g_chain(tier):
    parts = ("p", "b", "pb", "bp", "ppp", "")
    for kind in STREAMS:
        if kind in ("gzip",):
            continue
        for hs in itertools.product(parts, repeat=3 if tier == "quick" else 4):
            yield kind, hs


@PROP.family(g_chain, "all chains of 3 (thorough 4) writers, one after the other on one released stream, the last one closing it: each continues on the byte where the one before ended")
def chained_writers(ctx, case):
    from dustmaker.bitio import BitIOWriter

    kind, hs = case
    out = Out(ctx, kind)
    try:
        want = b""
        for i, h in enumerate(hs):
            last = i == len(hs) - 1
            w = BitIOWriter(out.f, noclose=not last)
            if kind in SEEKABLE:
                same(w.bit_tell(), 8 * len(want), f"start of writer {i}")
            m = c01.Model(b"", 0)
            for c in h:
                ctx.step()
                if c == "p":
                    c01.apply(m, w, ("w", 3, 5))
                else:
                    c01.apply(m, w, ("B", b"\x81\x3c\xe7"))
            w.close()
            same(out.closed(), last, f"closed state after writer {i}")
            want += m.final()
        same(out.contents(), want, f"contents of the {kind} stream")
        ctx.state(case)
    finally:
        out.done()


# --- short writes ----------------------------------------------------------------------


def payload(n):
    return bytes((i * 37 + i // 251) & 0xFF for i in range(n))


def g_short(tier):
    top = 3 if tier == "quick" else 4
    sizes = (0, 1, 2, 3, 7)
    for ln in range(1, top + 1):
        for pat in itertools.product(sizes, repeat=ln):
            for n in (5, 40):
                for noclose in (False, True):
                    yield pat, n, noclose
    for pat in ((4096, 1), (5000,), (0, 100), (8191,), (8192, 0), (100, 3000)):
        for n in (8190, 8192, 8193, 20000):
            for noclose in (False, True):
                yield pat, n, noclose


@PROP.family(g_short, "all cyclic patterns of up to 3 (thorough 4) accepted sizes out of 1, 2, 3, 7 and all, on payloads around the byte and the buffer size, with bit and byte writes and a seek back")
def short_writes(ctx, case):
    from dustmaker.bitio import BitIOWriter

    pat, n, noclose = case
    raw = Short(pat)
    w = BitIOWriter(raw, noclose=noclose)
    m = c01.Model(b"", 0)
    data = payload(n)
    ops = [("B", data), ("w", 3, 5), ("B", data[: min(n, 64)]), ("w", 17, 0x1ABCD), ("a",), ("s", 8), ("w", 16, 0xBEEF), ("s", 8 * n), ("B", data), ("w", 5, 9)]
    for op in ops:
        c01.apply(m, w, op)
        same(w.bit_tell(), m.pos, f"bit_tell after {op[0]}")
        ctx.step()
    w.close()
    same(raw.closed, not noclose, "closed state")
    got, want = raw.mem.getvalue(), m.final()
    require(got == want, f"contents after short writes {pat}: {len(got)} bytes, expected {len(want)}; first difference at", next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))))
    ctx.state(case)


def g_fail(tier):
    for pat in ((0,), (1,), (2, 1), (3,)):
        for at in range(0, 60 if tier == "quick" else 200):
            for leave in "CEX":
                yield pat, at, leave


@PROP.family(g_fail, "a raw stream whose k-th write fails, for every k: the failure is reported and the stream is closed nevertheless; if nothing failed, everything is there")
def failing_writes(ctx, case):
    from dustmaker.bitio import BitIOWriter

    pat, at, leave = case
    raw = Short(pat, fail=at)
    w = BitIOWriter(raw)
    m = c01.Model(b"", 0)
    failed = False
    data = payload(11)
    ops = [("B", data), ("w", 3, 5), ("B", data), ("a",), ("s", 8), ("w", 16, 0xBEEF), ("s", 96), ("w", 5, 9)]
    ctx.step(len(ops))
    try:
        if leave == "C":
            try:
                for op in ops:
                    c01.apply(m, w, op)
            finally:
                w.close()
        elif leave == "E":
            with w:
                for op in ops:
                    c01.apply(m, w, op)
        else:
            with w:
                for op in ops:
                    c01.apply(m, w, op)
                raise Boom()
    except OSError:
        failed = True
    except Boom:
        pass
    require(raw.closed, "the stream was not closed after a failed write")
    if raw.count > at:
        require(failed, "a failed write was not reported")
        ctx.outcome("failure reported")
    else:
        require(not failed, "a failure was reported although no write failed")
        same(raw.mem.getvalue(), m.final(), "contents")
        ctx.outcome("no failure")
    ctx.state(case)


# --- readers ----------------------------------------------------------------------------

RKINDS = ("bytes", "file", "raw", "random", "pipe", "notell", "badtell", "gzip", "bufpipe")
NOSEEK = ("pipe", "notell", "badtell", "bufpipe")


class In:
    def __init__(self, ctx, kind, data):
        self.path = self.wr = None
        if kind == "bytes":
            self.f = io.BytesIO(data)
        elif kind == "notell":
            self.f = NoTell(data)
        elif kind == "badtell":
            self.f = BadTell(data)
        elif kind in ("pipe", "bufpipe"):
            require(len(data) < 60000, "harness: pipe too small")
            rd, wr = os.pipe()
            os.write(wr, data)
            os.close(wr)
            self.f = os.fdopen(rd, "rb", 0 if kind == "pipe" else -1)
        else:
            fd, self.path = tempfile.mkstemp(dir=ctx.scratch)
            os.close(fd)
            with gzip.open(self.path, "wb") if kind == "gzip" else open(self.path, "wb") as g:
                g.write(data)
            self.f = {
                "file": lambda: open(self.path, "rb"),
                "raw": lambda: open(self.path, "rb", buffering=0),
                "random": lambda: open(self.path, "r+b"),
                "gzip": lambda: gzip.open(self.path, "rb"),
            }[kind]()

    def done(self):
        self.f.close()
        if self.path:
            os.unlink(self.path)


ROPS = [("r", 1, False), ("r", 3, True), ("r", 13, False), ("r", 8, False), ("B", 1), ("B", 2), ("a",)]


def g_reader(tier):
    n = 3 if tier == "quick" else 4
    for kind in RKINDS:
        for ops in itertools.product(ROPS, repeat=n):
            yield kind, ops


@PROP.family(g_reader, "all sequences of 3 (thorough 4) reads and aligns on 9 kinds of streams, four of which cannot seek or tell")
def reader_streams(ctx, case):
    from dustmaker.bitio import BitIOReader

    kind, ops = case
    data = c02.DATA[0]
    src = In(ctx, kind, data)
    try:
        r = BitIOReader(src.f)
        bits = bytes_bits(data)
        pos = 0
        for op in ops:
            pos = c02.apply(ctx, bits, pos, r, op)
            require(pos is not None, "harness: beyond the data")
        rest = len(bits) - pos
        same(r.read(rest), bits_int(bits[pos:]), "the rest")
        r.close()
        require(src.f.closed, f"{kind} stream not closed with its reader")
        ctx.state(case)
    finally:
        src.done()


def g_rclose(tier):
    n = 4 if tier == "quick" else 6
    for kind in RKINDS:
        for noclose in (False, True):
            for ln in range(1, n + 1):
                for h in itertools.product("rRCEX", repeat=ln):
                    s = "".join(h)
                    first = min((s.index(c) for c in "CEX" if c in s), default=None)
                    if first is None or "r" in s[first:]:
                        continue
                    yield kind, noclose, s


@PROP.family(g_rclose, "all histories of up to 4 (thorough 6) of read, release, close, leave the context normally or by an exception, for readers on 9 kinds of streams")
def reader_histories(ctx, case):
    from dustmaker.bitio import BitIOReader

    kind, noclose, h = case
    data = bytes(range(0x41, 0x41 + 16))
    src = In(ctx, kind, data)
    try:
        r = BitIOReader(src.f, noclose=noclose)
        keep, shut, n = noclose, False, 0
        for i, c in enumerate(h):
            ctx.step()
            if c == "r":
                same(r.read(8), data[n], "byte")
                n += 1
            elif c == "R":
                r.release()
                keep = True
            elif c == "C":
                r.close()
            elif c == "E":
                with r as inner:
                    require(inner is r, "the context of a reader is not the reader")
            else:
                try:
                    with r:
                        raise Boom()
                except Boom:
                    pass
                else:
                    raise Violated("the exception of the caller was swallowed")
            if c in "CEX":
                shut = shut or not keep
            same(src.f.closed, shut, f"closed state of the {kind} stream after {h[: i + 1]} (noclose={noclose})")
        del r
        gc.collect(0)
        same(src.f.closed, shut, "closed state after the reader is gone")
        if not shut:
            same(src.f.read(4), data[n : n + 4], "next bytes of the released stream")
        ctx.state(case)
    finally:
        src.done()


# --- whole files through every kind of stream ---------------------------------------------


def documents(tier):
    n = 12 if tier == "quick" else 60
    for i, (gen, _) in enumerate(L.GENERATORS):
        cases = list(gen("quick"))
        for c in cases[:: max(1, len(cases) // n)][:n]:
            yield "level", c
    for gen, _ in R.GENERATORS:
        cases = list(gen("quick"))
        for c in cases[:: max(1, len(cases) // n)][:n]:
            yield "replay", c
    for i in range(len(FILE_TREES)):
        yield "vars", i


def g_docs(tier):
    yield from documents(tier)


@PROP.family(g_docs, "levels, replays and variable files (up to 12, thorough 60, of each generator of C06 and C10) written to every kind of seekable stream and read from every kind of stream: the same bytes and contents as in memory")
def whole_files(ctx, case):
    from dustmaker import DFReader, DFWriter

    what, c = case
    if what == "level":
        obj, snap = ref.build_level(L.make(c)), ref.snap_level
        put, get = (lambda w: w.write_level(obj)), (lambda r: r.read_level())
    elif what == "replay":
        obj, snap = R.build(R.make(c)), R.snap
        put, get = (lambda w: w.write_replay(obj)), (lambda r: r.read_replay())
    else:
        obj, snap = ref.build_map(FILE_TREES[c]), ref.snap_map
        put, get = (lambda w: w.write_var_file(b"DF_STA", obj)), (lambda r: r.read_var_file(b"DF_STA"))
    f = io.BytesIO()
    with DFWriter(f, noclose=True) as w:
        put(w)
    data = f.getvalue()
    want = snap(get(DFReader(io.BytesIO(data))))
    for kind in SEEKABLE:
        for noclose in (False, True):
            out = Out(ctx, kind)
            try:
                with DFWriter(out.f, noclose=noclose) as w:
                    put(w)
                ctx.step()
                same(out.closed(), not noclose, f"closed state of the {kind} stream")
                require(out.contents() == data, f"{what} written to a {kind} stream differs from the one written to memory")
            finally:
                out.done()
    for kind in RKINDS:
        if len(data) > 50000 and "pipe" in kind:
            continue
        src = In(ctx, kind, data)
        try:
            if kind == "pipe":
                src.f = io.BufferedReader(src.f)
            with DFReader(src.f) as r:
                got = snap(get(r))
            ctx.step()
            require(got == want, f"{what} read from a {kind} stream differs from the one read from memory")
            require(src.f.closed, f"{kind} stream not closed")
        finally:
            src.done()
    ctx.state(what, data)
