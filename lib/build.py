"""Builds goeland and Go harnesses from /repo's current working tree, outside /repo.

The generated parser is produced into a private directory and given to the go tool through
-overlay, so /repo is only read."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get('GOELAND_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception): pass


def go_env():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOCACHE='/root/.cache/go-build', LANG='C.UTF-8')
    e['PATH'] = '/opt/vp/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.pop('GOFLAGS', None)
    return e


def sh(cmd, cwd=None, timeout=800, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


class Builder:
    """One scratch directory per check run; removed by close()."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='goeland-verif-')
        self._overlay = None

    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def parser(self):
        out = os.path.join(self.dir, 'tptp_parse.go')
        if not os.path.exists(out):
            rc, o = sh(['goyacc', '-l', '-p', 'TPTP', '-o', out, '-v', os.path.join(self.dir, 'y.output'),
                        os.path.join(SRC, 'Parser', 'tptp_parse.y')], cwd=self.dir)
            if rc != 0 or not os.path.exists(out): raise BuildError('goyacc failed:\n' + o[-3000:])
        return out

    def overlay(self, extra=None):
        rep = {os.path.join(SRC, 'Parser', 'tptp_parse.go'): self.parser()}
        rep.update(extra or {})
        f = tempfile.NamedTemporaryFile('w', suffix='.json', dir=self.dir, delete=False)
        json.dump({'Replace': rep}, f); f.close()
        return f.name

    def goeland(self, race=False, tags=None):
        out = os.path.join(self.dir, 'goeland-race' if race else 'goeland')
        if os.path.exists(out): return out
        cmd = ['go', 'build', '-overlay', self.overlay(), '-o', out]
        if race: cmd.append('-race')
        if tags: cmd += ['-tags', tags]
        # the main package, as src/Makefile builds it
        rc, o = sh(cmd + ['.'], cwd=SRC)
        if rc != 0: raise BuildError('go build failed:\n' + o[-3000:])
        return out

    def gotest(self, pkg, files, race=False, name=None):
        """Compiles package pkg (relative to src) with extra _test.go files; returns the test binary."""
        name = name or (pkg.replace('/', '_') + ('-race' if race else ''))
        out = os.path.join(self.dir, name + '.test')
        rep = {os.path.join(SRC, pkg, os.path.basename(f)): os.path.abspath(f) for f in files}
        # the package's own test files are not part of the harness
        d = os.path.join(SRC, pkg)
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.endswith('_test.go'): rep[os.path.join(d, f)] = ''
        cmd = ['go', 'test', '-c', '-vet=off', '-overlay', self.overlay(rep), '-o', out]
        if race: cmd.append('-race')
        rc, o = sh(cmd + ['./' + pkg], cwd=SRC)
        if rc != 0 or not os.path.exists(out): raise BuildError('go test -c %s failed:\n%s' % (pkg, o[-3000:]))
        return out
