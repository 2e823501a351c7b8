"""C02: malformed input and read faults."""
import bz2, gzip, io, itertools, os, re
import numpy as np
from ..core import Unit, require, Violation
from ..lib import *

PROPERTY, LEVEL = "C02", "fault_enumeration"
RULE = ("every malformed token at every token and line position of short files and at ladder positions of long ones; every single-character "
        "deletion, insertion, replacement and transposition of good lines, judged by a strict reader; every "
        "read call of a load failing with each kind of fault, every truncation point and every single-byte corruption of "
        "compressed files; non-trivial: the fault comes after at least one good line")
ASSUMPTIONS = ["infinite and not-a-number values, hexadecimal numbers and feature id 0 may be accepted or rejected",
               "a corruption that leaves the decompressed bytes and their checksum intact is not a fault"]

GOOD = ["1 qid:1 1:1 3:2", "0 qid:1 2:0.5", "2 qid:4 1:1 2:2 3:3 4:4", "0 qid:5"]
BADLINES = ["x qid:1 1:1", "qid:1 1:1", "1:1 2:2", "abc", "1", "-", "1 qid: 1:1", "1 qid:x 1:1", "1 qd:1 1:1", "1 qid 1:1", "1 :1 2:2",
            "1 a:1", "1 qid:1 1", "1 qid:1 1:", "1 qid:1 :1", "1 qid:1 a:1", "1 qid:1 1:x", "1 qid:1 1;2", "1 qid:1 -1:3",
            "1 qid:1 2:1 2:1", "1 qid:1 3:1 1:1", "1 qid:1 1:1 2", "1 qid:1 1:1 2:", "1 qid:1 1:1 foo", "1 qid:1 1:1 2:2 qid:7",
            "1 qid:1 1:1 2:1 3:1 5:1 4:1", "1 qid:1 1:1 2 :2", "one", ": :", "1 qid:1 1:1 3=4", "1 qid:1 1:1 nan", "1 qid:1 1:1 2:--1",
            "1 qid:1 5:1 -2:1", "1 qid:4294967297 1:1", "1 qid:4294967296 1:1", "1 qid:-2147483649 1:1", "1 qid:18446744073709551617 1:1",
            "1 qid:1 2147483648:1", "1 qid:1 4294967295:1", "1 qid:1 4294967297:1", "1 qid:1 1:1 4294967298:2", "1 qid:1 18446744073709551617:1",
             "nan qid:1 1:1", "1 qid:1 1:1 2:1:", "1 qid:1x 1:1", "1 qid:1.5 1:1", "1 qid:1e3 1:1", "1 qid:1 1:0,5", "1 qid:1 1:1 2:1e", "1 qid:1 1:1:1", "1qid:2 1:1",
             "1+3:4 5:1", "\x00", "\x001 qid:1 1:1", "NULL qid:1 1:1"]


def attempt(f):
    from rankeval.dataset.svmlight_format import load_svmlight_file
    try:
        r = load_svmlight_file(f, query_id=True)
    except Exception as e:
        return e
    return r


def good_load():
    r = attempt(io.BytesIO(b"1 qid:3 1:2 2:5\n0 qid:3 2:1\n"))
    require(not isinstance(r, Exception) and r[0].tolist() == [[2, 5], [0, 1]] and r[1].tolist() == [1, 0],
            "a good file no longer loads after a failed one")


def check_bad(case, ctx):
    from rankeval.dataset import Dataset
    lines, last, ways = case
    data = ("\n".join(lines) + ("\n" if last else "")).encode()
    for w in ways:
        p = None
        if w == "bytesio":
            r = attempt(io.BytesIO(data))
        else:
            p = scratch(".gz" if w == "gz" else ".txt")
            with (gzip.open if w == "gz" else open)(p, "wb") as f:
                f.write(data)
            try:
                if w == "dataset":
                    try:
                        r = Dataset.load(p)
                    except Exception as e:
                        r = e
                else:
                    r = attempt(p)
            finally:
                os.unlink(p)
        require(isinstance(r, Exception), "malformed file accepted: %r", data[:200])
        require(not isinstance(r, (SystemError, MemoryError)), "malformed file: %r", r)
        ctx.evaluated()
        ctx.count("rejected_as_" + type(r).__name__)
    good_load()
    if len(lines) > 1:
        ctx.nontrivial(case)


NUM = r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?"
ODD = r"(?i)[+-]?(inf(inity)?|nan(\(\w*\))?|0x[0-9a-f.]*(p[+-]?\d+)?)"


def strict(line):
    """None: malformed; "ANY": may be rejected; otherwise label, query id or None, features."""
    if line.startswith("#"):
        return "ANY"
    toks = re.split("[ \t\r\v\f\n]+", line.split("#")[0].strip(" \t\r\v\f\n"))
    if len(toks) < 2 or not re.fullmatch(NUM, toks[0]):
        return None
    y, qid, odd = np.float32(toks[0]), None, False
    if not np.isfinite(y):
        return "ANY"
    if re.fullmatch(r"qid:[+-]?\d+", toks[1]):
        qid = int(toks[1][4:])
        if not -2 ** 31 <= qid < 2 ** 32:
            return None
        toks = toks[1:]
    f, last = {}, -1
    for t in toks[1:]:
        m = re.fullmatch(r"\+?(\d+):(.*)", t)
        if not m or int(m.group(1)) <= last:
            return None
        last = int(m.group(1))
        if re.fullmatch(ODD, m.group(2)) or last == 0:
            odd = True
            continue
        if not re.fullmatch(NUM, m.group(2)):
            return None
        f[last] = float(m.group(2))
    return "ANY" if odd else (y, qid, f)


def check_edits(case, ctx):
    """Files of two lines, the second one edited."""
    good, k = case
    first = "1 qid:3 1:2 2:5"
    for line in edits(good, k):
        v = strict(line)
        r = attempt(io.BytesIO((first + "\n" + line + "\n").encode("latin-1")))
        ctx.evaluated()
        if v == "ANY":
            continue
        if v is None:
            require(isinstance(r, Exception), "malformed line accepted: %r", line)
            ctx.nontrivial(line)
            continue
        require(not isinstance(r, Exception), "valid line %r rejected: %r", line, r)
        y, qid, f = v
        nf = max([2] + list(f))
        X = np.zeros((2, nf), np.float32)
        X[0, :2] = 2, 5
        for i, x in f.items():
            X[1, i - 1] = np.clip(x, -np.inf, np.finfo(np.float32).max)
        require(same(r[0], X) and r[1].tolist() == [1, y], "line %r read as %r, label %r", line, r[0][1:].tolist(), r[1][1:])
        require(r[2].tolist() == ([3] if qid is None else [3, (qid + 2 ** 31) % 2 ** 32 - 2 ** 31]), "line %r gave query ids %r", line, r[2])


def edits(good, k):
    """The edits at position k."""
    if k < len(good):
        yield good[:k] + good[k + 1:]
    if k + 1 < len(good):
        yield good[:k] + good[k + 1] + good[k] + good[k + 2:]
    for c in "0123456789:.,-+eExXqidnaf #;/_()\t\v\0\"'%*\xa0\xff":
        yield good[:k] + c + good[k:]
        if k < len(good):
            yield good[:k] + c + good[k + 1:]


EDITED = ["1 qid:3 1:0.5 3:-2", "2.5 qid:17 2:1e-3", "0 qid:9", "-1\tqid:2 1:1 2:2  4:40", "3 qid:5 2:7 # note 1:1", "1 1:2 4:.5"]


def bad_files(nmax):
    for n in range(0, nmax + 1):
        for pos in range(n + 1):
            for bad in BADLINES:
                for last in (True, False):
                    ls = [GOOD[i % 4] for i in range(n)]
                    ls.insert(pos, bad)
                    yield tuple(ls), last, ("bytesio",) if n else ("bytesio", "path", "gz", "dataset")


def bad_ladder(ns):
    for n in ns:
        for pos in sorted(set([n - 1, n // 2])):
            for bad in ("x qid:1 1:1", "1 qid:1 1", "1 qid:1 3:1 2:1"):
                ls = [GOOD[i % 3] for i in range(n)]
                ls[pos] = bad
                yield tuple(ls), pos % 2 == 0, ("path",)
    for n in ns:
        # the bad pair is the n-th of its line
        yield (GOOD[0], "1 qid:1 " + " ".join("%d:1" % (i + 1) for i in range(n)) + " bad", GOOD[0]), True, ("bytesio",)
        yield (GOOD[0], "1 qid:1 " + " ".join("%d:1" % (i + 1) for i in range(n)) + " %d:3" % n, GOOD[0]), True, ("bytesio",)


def check_blank(case, ctx):
    """A blank line is skipped or rejected; it never ends the file."""
    blank, pos, n = case
    ls = [GOOD[i % 3] for i in range(n)]
    ls.insert(pos, blank)
    r = attempt(io.BytesIO(("\n".join(ls) + "\n").encode()))
    if not isinstance(r, Exception):
        ref = attempt(io.BytesIO(("\n".join(GOOD[i % 3] for i in range(n)) + "\n").encode()))
        require(all(same(a, b) for a, b in zip(r, ref)), "blank line %r at %d: rows lost or changed", blank, pos)
    ctx.evaluated()
    ctx.nontrivial(case)


def check_mixed(case, ctx):
    """Rows with and without query id in one file never make a dataset."""
    from rankeval.dataset import Dataset
    data = "".join("1 %s1:%d\n" % ("qid:2 " if q else "", i + 1) for i, q in enumerate(case)).encode()
    try:
        ds = Dataset.load(io.BytesIO(data))
    except Exception:
        pass
    else:
        raise Violation("file with ids on some rows only gave a dataset: %r" % data)
    ctx.evaluated()
    ctx.nontrivial(case)


class Boom(Exception):
    pass


class Faulty(io.RawIOBase):
    """Binary file whose k-th low-level read raises."""
    def __init__(self, data, chunk, k, exc):
        self.b, self.chunk, self.k, self.exc, self.n = io.BytesIO(data), chunk, k, exc, 0

    def readable(self):
        return True

    def readinto(self, b):
        self.n += 1
        if self.n == self.k:
            raise self.exc
        d = self.b.read(min(len(b), self.chunk))
        b[:len(d)] = d
        return len(d)


class FaultyLines:
    """File-like object whose k-th readline raises or returns something that is no line."""
    def __init__(self, lines, k, what):
        self.lines, self.k, self.what, self.n = lines, k, what, 0

    def read(self, *a):
        raise what_exc("read")

    def readline(self, *a):
        self.n += 1
        if self.n == self.k:
            if isinstance(self.what, BaseException):
                raise self.what
            return self.what
        i = self.n - 1
        return self.lines[i] if i < len(self.lines) else b""

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l


def what_exc(s):
    return io.UnsupportedOperation(s)


FAULTS = [OSError(5, "Input/output error"), EOFError("short"), Boom("boom"), ValueError("bad"), RuntimeError("r"), MemoryError("m"),
          KeyboardInterrupt()]
JUNK = ["1 qid:1 1:1\n", None, 5, ["x"], 1.5]


def check_fault(case, ctx):
    from rankeval.dataset.svmlight_format import load_svmlight_file
    kind, n, k, fi = case
    lines = [(GOOD[i % 4] + "\n").encode() for i in range(n)]
    if kind == "readline":
        f, exc = FaultyLines(lines, k, FAULTS[fi]), FAULTS[fi]
    elif kind == "junk":
        f, exc = FaultyLines(lines, k, JUNK[fi]), None
    else:
        exc = FAULTS[fi]
        raw = Faulty(b"".join(lines), int(kind), k, exc)
        f = io.BufferedReader(raw, buffer_size=int(kind))
    try:
        r = load_svmlight_file(f, query_id=True)
    except BaseException as e:
        require(exc is None or e is exc or isinstance(e, type(exc)), "read fault %r reported as %r", exc, e)
        require(not isinstance(e, SystemError), "SystemError %r", e)
        happened = True
    else:
        happened = False
    hit = f.n >= k if kind in ("readline", "junk") else raw.n >= k
    require(happened or not hit, "read fault %r at call %d ignored: %d of %d rows returned", exc, k, 0 if happened else len(r[1]), n)
    if not happened:
        require(len(r[1]) == n, "rows lost")
    good_load()
    ctx.evaluated()
    if hit:
        ctx.count("faults_injected")
        if k > 1:
            ctx.nontrivial(case)


def faults(nmax, chunks):
    for n in range(1, nmax + 1):
        for k in range(1, n + 2):
            for fi in range(len(FAULTS)):
                yield "readline", n, k, fi
            for fi in range(len(JUNK)):
                yield "junk", n, k, fi
    for n in (1, 3, 6):
        total = sum(len(GOOD[i % 4]) + 1 for i in range(n))
        for c in chunks:
            for k in range(1, total // c + 3):
                for fi in range(3):
                    yield str(c), n, k, fi
    for n in SHORT_LADDER:
        for k in (n // 2 + 1, n + 1):
            for fi in (0, 2):
                yield "readline", n, k, fi


def packed(kind, n):
    data = "".join(GOOD[i % 4] + " # %d\n" % (i * i * 7919) for i in range(n)).encode()
    return data, (gzip.compress(data, mtime=0) if kind == ".gz" else bz2.compress(data))


def check_packed(case, ctx):
    kind, n, cut, flip = case
    data, comp = packed(kind, n)
    if flip is None:
        blob = comp[:cut]
    else:
        blob = comp[:cut] + bytes([comp[cut] ^ flip]) + comp[cut + 1:]
    try:
        plain = (gzip.decompress if kind == ".gz" else bz2.decompress)(blob)
    except Exception:
        plain = None
    p = scratch(kind)
    try:
        with open(p, "wb") as f:
            f.write(blob)
        r = attempt(p)
    finally:
        os.unlink(p)
    if plain == data:
        require(not isinstance(r, Exception) and len(r[1]) == n, "intact file not loaded")
    elif plain is None or plain:
        require(isinstance(r, Exception), "damaged %s file (byte %d of %d%s) gave %s rows", kind, cut, len(comp),
                "" if flip is None else " flipped", "?" if isinstance(r, Exception) else len(r[1]))
        ctx.nontrivial(case)
    ctx.evaluated()


def packs(ns):
    for kind in (".gz", ".bz2"):
        for n in ns:
            _, comp = packed(kind, n)
            for cut in range(1, len(comp)):
                yield kind, n, cut, None
            for cut in range(len(comp)):
                for flip in (1, 128):
                    yield kind, n, cut, flip


def check_absent(case, ctx):
    d = os.environ["MC_SCRATCH"]
    target = {"missing": d + "/none.txt", "missing-gz": d + "/none.gz", "dir": d, "fd": 987654, "type": 1.5, "none": None}[case]
    r = attempt(target)
    require(isinstance(r, Exception), "%s: loaded", case)
    require(case == "type" or case == "none" or isinstance(r, OSError), "%s: %r", case, r)
    f = open(__file__, "rb")
    f.close()
    require(isinstance(attempt(f), Exception), "closed file loaded")
    good_load()
    ctx.evaluated()


def units(tier):
    t = tier == "thorough"
    return [Unit("malformed", lambda: bad_files(6 if t else 4), check_bad),
            Unit("edits", [(g, k) for g in EDITED for k in range(len(g) + 1)], check_edits),
            Unit("malformed-ladder", lambda: bad_ladder(LADDER if t else SHORT_LADDER), check_bad),
            Unit("blank", [(b, p, n) for b in ("", " ", "\t", "\r", "   \t") for n in range(1, 5) for p in range(n + 1)], check_blank),
            Unit("mixed-ids", [c for n in range(2, 7) for c in itertools.product((0, 1), repeat=n) if not all(c)], check_mixed),
            Unit("read-faults", lambda: faults(8 if t else 5, (1, 2, 3, 7, 16, 64) if t else (1, 7, 64)), check_fault),
            Unit("damaged-archives", lambda: packs((1, 3, 12, 40) if t else (1, 6)), check_packed),
            Unit("absent", ["missing", "missing-gz", "dir", "fd", "type", "none"], check_absent)]
