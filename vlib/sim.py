"""Drive a simulator through its command console (batch mode).

Commands go into a file opened with -c (no echo, not interactive); every group
of commands whose output is wanted is followed by an `echo` marker, so answers
are attributed to the command that produced them."""
import subprocess, os, re, tempfile
from .build import BDIR

MARK = "@@"


class SimError(Exception):
    pass


class Batch:
    def __init__(self, binary, args=(), workdir=None):
        self.bin = binary
        self.args = list(args)
        self.wd = workdir
        self.lines = []
        self.n = 0
        self.out = None

    def do(self, cmd):
        """queue a command, output ignored (goes into the next chunk)"""
        self.lines.append(cmd)

    def ask(self, cmd):
        """queue a command; returns a handle for res()"""
        self.mark()
        self.lines.append(cmd)
        return self.mark()

    def mark(self):
        self.lines.append("echo %s%d" % (MARK, self.n))
        self.n += 1
        return self.n - 1

    def run(self, timeout=120, quit=True):
        """Run the commands; a failure (crash, hang, lost answers) is repeated once
        before it is reported."""
        try:
            return self._run(timeout, quit)
        except SimError:
            return self._run(timeout, quit)

    def _run(self, timeout, quit):
        fd, path = tempfile.mkstemp(suffix=".cmd", dir=self.wd)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(self.lines) + ("\nquit\n" if quit else "\n"))
        env = dict(os.environ, LD_PRELOAD=os.path.join(BDIR, "outbuf.so"))
        try:
            with open(path + ".out", "wb") as of, open(path + ".err", "wb") as ef:
                p = subprocess.Popen([self.bin, "-q", "-b", "-c", path] + self.args,
                                     stdin=subprocess.DEVNULL, stdout=of,
                                     stderr=ef, cwd=self.wd, env=env)
                try:
                    p.wait(timeout)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    raise SimError("simulator did not finish within %ds" % timeout)
            with open(path + ".out", "rb") as of:
                txt = of.read().decode("latin1")
        finally:
            for f in (path, path + ".out", path + ".err"):
                if os.path.exists(f):
                    os.unlink(f)
        self.rc = p.returncode
        parts = re.split(r"^%s(\d+)\r?\n" % MARK, txt, flags=re.M)
        # parts = [pre, "0", chunk0, "1", chunk1...]; text before marker k belongs to k
        self.chunks = {}
        prev = parts[0]
        for i in range(1, len(parts), 2):
            self.chunks[int(parts[i])] = prev
            prev = parts[i + 1]
        self.tail = prev
        if len(self.chunks) != self.n or self.rc < 0:
            if os.environ.get("SIMDBG"):
                with open("/tmp/simdbg.cmd", "w") as f:
                    f.write("\n".join(self.lines) + "\n#missing %r" % [k for k in range(self.n) if k not in self.chunks])
            raise SimError("simulator failed: %d of %d answers, exit status %s, last output: %s" %
                           (len(self.chunks), self.n, self.rc, txt[-300:]))
        return self

    def res(self, h):
        return self.chunks[h]


class parsing:
    """errors while reading the simulator's answers: the simulator gave an answer
    of unknown form, which is reported like a failed simulator"""
    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, (AttributeError, ValueError, IndexError, KeyError, TypeError)):
            import traceback
            raise SimError("unexpected answer of the simulator: %r\n%s" % (v, "".join(traceback.format_tb(tb)[-2:])))
        return False


def parse_ints(txt, base=10):
    return [int(x, base) for x in txt.split()]
