"""A small IMAP reader/writer for the driver: the mail clients below the citm and the mail server above it."""
import re

FLAGS = [("\\Answered", 1), ("\\Flagged", 2), ("\\Seen", 4), ("\\Draft", 8), ("\\Deleted", 16)]
SEEN, DEL = 4, 16

def fmask(names):
    m = 0
    low = {n.lower(): b for n, b in FLAGS}
    for n in names: m |= low.get(n.lower(), 0)
    return m

def fnames(m): return " ".join(n for n, b in FLAGS if m & b)

class Lines:
    """splits a byte stream into logical lines (literals included)"""
    def __init__(self, on_sync=None):
        self.buf, self.on_sync = b"", on_sync
        self.lit_asked = False
    def feed(self, data):
        self.buf += data
        out = []
        while True:
            pos = 0
            while True:
                i = self.buf.find(b"\r\n", pos)
                if i < 0: return out
                m = re.search(rb"\{(\d+)(\+?)\}$", self.buf[pos:i])
                if not m: break
                # the text of a status response holds no literals
                if pos == 0 and re.match(rb"(\S+) (OK|NO|BAD|BYE|PREAUTH) ", self.buf[:i]): break
                need = i + 2 + int(m.group(1))
                if len(self.buf) <= need:
                    if not m.group(2) and self.on_sync and not self.lit_asked and len(self.buf) == i + 2:
                        self.lit_asked = True
                        self.on_sync()
                    return out
                pos = need
            self.lit_asked = False
            out.append(self.buf[:i])
            self.buf = self.buf[i + 2:]

class Bad(Exception): pass

def tokens(b):
    """atoms as str, literals/quoted as bytes, lists as python lists"""
    pos, n = 0, len(b)
    def item():
        nonlocal pos
        c = b[pos:pos + 1]
        if c == b"(":
            pos += 1; out = []
            while True:
                while b[pos:pos + 1] == b" ": pos += 1
                if pos >= n: raise Bad("unbalanced ( in %r" % b)
                if b[pos:pos + 1] == b")": pos += 1; return out
                out.append(item())
        if c == b'"':
            pos += 1; s = b""
            while b[pos:pos + 1] != b'"':
                if pos >= n: raise Bad("unbalanced quote")
                if b[pos:pos + 1] == b"\\": pos += 1
                s += b[pos:pos + 1]; pos += 1
            pos += 1
            return s
        if c == b"{":
            m = re.compile(rb"\{(\d+)\+?\}\r\n").match(b, pos)
            if not m: raise Bad("bad literal")
            k = int(m.group(1)); s = b[m.end():m.end() + k]; pos = m.end() + k
            return s
        st = pos; depth = 0
        while pos < n:
            c = b[pos:pos + 1]
            if c == b"[": depth += 1
            if c == b"]": depth -= 1
            if depth == 0 and c in (b" ", b"(", b")") and pos > st: break
            if c in (b"\r", b"\n"): raise Bad("stray CR/LF in %r" % b[:200])
            pos += 1
        return b[st:pos].decode("latin1")
    out = []
    while pos < n:
        if b[pos:pos + 1] == b" ": pos += 1; continue
        out.append(item())
    return out

def seqset(s, mx):
    """expand a sequence set with '*' = mx"""
    r = []
    for part in s.split(","):
        a, _, z = part.partition(":")
        a = mx if a == "*" else int(a)
        z = a if not z else (mx if z == "*" else int(z))
        r += list(range(min(a, z), max(a, z) + 1)) if abs(a - z) < 100000 else [a, z]
    return sorted(set(r))

def compact(nums):
    nums = sorted(nums)
    out = []
    for x in nums:
        if out and out[-1][1] == x - 1: out[-1][1] = x
        else: out.append([x, x])
    return ",".join(str(a) if a == b else "%d:%d" % (a, b) for a, b in out)
