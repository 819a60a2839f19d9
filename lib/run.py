"""Running the goeland binary and reading what it printed."""
import os, re, signal, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GOELAND_REPO', '/repo')


class Out:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'wall', 'args', 'path')

    def res(self):
        """'VALID' / 'NOT VALID' / None, from the RES line(s)."""
        m = re.findall(r'% RES : (NOT VALID|VALID)', self.out)
        return m[0] if m else None

    def res_lines(self): return re.findall(r'% RES : (NOT VALID|VALID)', self.out)
    def szs(self): return re.findall(r'^% SZS status (\S+) for (.*)$', self.out, re.M)

    def verdict(self):
        if self.timeout: return 'TIMEOUT'
        r = self.res()
        if r: return r
        return 'RC%d' % self.rc

    def panic(self):
        return re.search(r'^(panic:|fatal error:|goroutine \d+ \[|runtime error)|WARNING: DATA RACE', self.out + '\n' + self.err, re.M) is not None


def ends(f, k):
    """the text of f, without the middle when it is longer than 2k bytes"""
    n = f.seek(0, 2); f.seek(0)
    if n <= 2 * k: return f.read().decode('utf-8', 'replace')
    a = f.read(k); f.seek(n - k)
    return (a + b'\n[...]\n' + f.read(k)).decode('utf-8', 'replace')


def run(binary, args, timeout=4.0, cwd=None, env=None, stdin=None, max_mem_gb=None):
    e = {'PATH': os.environ.get('PATH', ''), 'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8'}
    if env: e.update(env)
    cmd = [binary] + list(args)
    if max_mem_gb:
        cmd = ['prlimit', '--as=%d' % int(max_mem_gb * 2**30)] + cmd
    t0 = time.time()
    o = Out(); o.args = list(args); o.timeout = False; o.path = None
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, cwd=cwd, env=e, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            o.timeout = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        o.rc = p.returncode
        fo.seek(0); fe.seek(0)
        o.out = ends(fo, 4_000_000); o.err = ends(fe, 1_000_000)
    o.wall = time.time() - t0
    return o


def pmap(fn, items, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def digest(s):
    import hashlib
    return hashlib.sha1(s.encode()).hexdigest()[:12]
