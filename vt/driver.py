"""Builds the harness around /repo's current sources and talks to it."""
import fcntl
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
BIN = os.path.join(BUILD, "target/debug/vharness")


class HarnessError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        HOME=e.get("HOME", "/root"),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
        CARGO_INCREMENTAL="1",
        RUST_MIN_STACK=str(256 << 20),  # unoptimised frames are large; the compiler uses worker threads
    )
    cargo = os.path.join(e["HOME"], ".cargo/bin")
    e["PATH"] = cargo + ":/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    return e


def source_hashes():
    """One content hash per crate of /repo (mtimes are not trusted)."""
    out = {}
    for d in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, d)
        if not os.path.isfile(os.path.join(p, "Cargo.toml")):
            continue
        h = hashlib.sha256()
        for base, dirs, files in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "node_modules", "snapshots"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".spade", ".ron", ".sv", ".v", ".hpp", ".cpp", ".py")):
                    fp = os.path.join(base, f)
                    h.update(fp.encode())
                    with open(fp, "rb") as fh:
                        h.update(fh.read())
        out[d] = h.hexdigest()
    return out


def crate_names(d):
    """package name of the crate in directory d"""
    for l in open(os.path.join(REPO, d, "Cargo.toml")):
        l = l.strip()
        if l.startswith("name"):
            return l.split("=")[1].strip().strip('"')
    return d


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "hashes.json")
        now = source_hashes()
        try:
            old = json.load(open(stamp))
        except Exception:
            old = {}
        fpd = os.path.join(BUILD, "target/debug/.fingerprint")
        if os.path.isdir(fpd):
            for d, h in now.items():
                if old.get(d) != h:
                    n = crate_names(d)
                    for x in os.listdir(fpd):
                        if x.rsplit("-", 1)[0] == n:
                            shutil.rmtree(os.path.join(fpd, x), ignore_errors=True)
        # the committed lock file is the truth; cargo must not touch it
        r = subprocess.run(
            ["cargo", "build", "--offline", "-q"],
            cwd=os.path.join(ROOT, "harness"),
            env=env(),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            timeout=1500,
        )
        if r.returncode != 0:
            raise HarnessError("harness build failed:\n" + r.stdout[-6000:])
        json.dump(now, open(stamp, "w"))


class Server:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vharness")
        self.p = None
        self.buf = b""

    def start(self):
        self.p = subprocess.Popen(
            [BIN, self.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env()
        )
        self.buf = b""

    def ask(self, req, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {"ok": False, "timeout": True, "panic": "timeout"}
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                self.p.wait()
                code = self.p.returncode
                self.p = None
                return {"ok": False, "panic": f"process died with {code}"}
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def compile(self, src, **kw):
        req = {"cmd": "compile"}
        side = kw.pop("side", None)
        if side is not None:
            # other files that the program reads, next to it
            root = os.path.join(self.dir, "side")
            shutil.rmtree(root, ignore_errors=True)
            for n, hexa in [["src/t.spade", ""]] + side:
                p = os.path.join(root, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(bytes.fromhex(hexa))
            src = [[f",,{root}/src/t.spade", src]]
        if isinstance(src, str):
            req["src"] = src
        else:
            req["files"] = src
        req.update(kw)
        return self.ask(req)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


_server = None


def server():
    global _server
    if _server is None:
        _server = Server()
        import atexit

        atexit.register(_server.close)
    return _server
