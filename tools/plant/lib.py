"""What the demonstrations share: runs burn_fm in a scratch directory, builds
database files."""
import json
import os
import shutil
import subprocess
import tempfile

BIN = os.path.abspath("target/debug/burn_fm")
SECTOR = 4096


class Run:
    def __init__(self, args, files=()):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        try:
            for name, data in dict(files).items():
                with open(os.path.join(self.dir, name), "wb") as f:
                    f.write(data.encode() if isinstance(data, str) else data)
            try:
                r = subprocess.run([BIN] + list(args), cwd=self.dir, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=30)
                self.rc, self.out, self.err = r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                self.rc, self.out, self.err = None, "", ""
            self.files = {}
            for base, _, names in os.walk(self.dir):
                for n in names:
                    p = os.path.join(base, n)
                    self.files[os.path.relpath(p, self.dir)] = open(p, "rb").read()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def model(self, which):
        return json.loads(self.files["inspect_output/" + which])


def compile_burn(text, *more):
    r = Run(["-c", "a.burn"] + list(more), {"a.burn": text})
    assert r.rc == 0, (r.rc, r.err)
    return r.model("test_compile"), r.files.get("a.fmp12")


def decompile(data):
    r = Run(["-d", "a.fmp12"], {"a.fmp12": data})
    assert r.rc == 0, (r.rc, r.err[-500:])
    return r.model("test_decompile")


def scramble(text):
    return bytes(b ^ 0x5A for b in text.encode())


def number(n):
    """Directory and step numbers."""
    if n < 128:
        return bytes([n])
    n -= 128
    hi = 0x80 | (n >> 8)
    if n >> 8 <= 3:
        hi |= 0x7C
    return bytes([hi, n & 255])


def push(*dirs):
    out = b""
    for d in dirs:
        b = number(d)
        out += bytes([0x20 if len(b) == 1 else 0x28]) + b
    return out


def pop(n=1):
    return b"\x40" * n


def kv(key, data):
    if key < 256:
        return bytes([0x06, key, len(data)]) + data
    return bytes([0x0E]) + number(key) + bytes([len(data)]) + data


def text(key, s):
    return kv(key, scramble(s))


def segment(idx, data):
    return bytes([0x07, idx, len(data) >> 8, len(data) & 255]) + data


def simple(data):
    return bytes([0x23, len(data)]) + data


def sector(content, nxt, prev=0):
    assert len(content) <= SECTOR - 20, len(content)
    head = bytes(4) + prev.to_bytes(4, "big") + nxt.to_bytes(4, "big") + bytes(8)
    # an even rest is filled by zero chunks of two bytes
    return (head + content).ljust(SECTOR, b"\0")


def database(*contents):
    n = len(contents)
    out = bytes(SECTOR) + sector(b"", n + 2)
    for i, c in enumerate(contents):
        out += sector(c, i + 3 if i + 1 < n else 0, i + 1)
    return out + bytes(SECTOR)


def table(tid, name, fields=()):
    out = push(3, 16, 5, 128 + tid) + text(16, name) + pop(4)
    out += push(128 + tid, 3, 5)
    for fid, fname in fields:
        out += push(fid) + text(16, fname) + pop()
    return out + pop(3)


def step(op, n, script=0):
    """A script step record of 28 bytes."""
    b = number(n)
    rec = bytearray(28)
    rec[0] = len(b) + 1
    rec[2:2 + len(b)] = b
    if script:
        b = number(script)
        rec[6] = len(b) + 1
        rec[8:8 + len(b)] = b
    rec[21] = op
    return bytes(rec)


def script_name(sid, name, group=1):
    return push(17, 1, group, sid) + text(16, name) + pop(4)


def steps(sid, records):
    return push(17, 5, sid) + segment(4, b"".join(records)) + pop(3)


def calculation(sid, n, code):
    return push(17, 5, sid, 5, n, 129, 5) + kv(5, code) + pop(7)
