"""Fresh processes on demand: a process with a given hash seed imports peak once and forks for every request."""
import atexit, json, os, struct, subprocess, sys

from .core import HarnessError

_Z = {}


def _read(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    return f.read(struct.unpack('<I', h)[0])


def _write(f, b):
    f.write(struct.pack('<I', len(b)) + b)
    f.flush()


class Zygote:
    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'pbt.zygote'], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, module, func, arg):
        _write(self.p.stdin, json.dumps([module, func, arg]).encode())
        r = _read(self.p.stdout)
        if r is None:
            raise HarnessError('zygote died')
        return json.loads(r)


def ask(seed, module, func, arg):
    """['ok', result] or ['error', message] of module.func(arg) in a fresh process with that hash seed"""
    if seed not in _Z:
        _Z[seed] = Zygote(seed)
        atexit.register(_Z[seed].p.kill)
    return _Z[seed].ask(module, func, arg)


def main():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import importlib
    import peak.assembler, peak.assembler2.assembler, hwtypes  # noqa
    while True:
        req = _read(sys.stdin.buffer)
        if req is None:
            os._exit(0)
        module, func, arg = json.loads(req)
        mod = importlib.import_module(module)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = ['ok', getattr(mod, func)(arg)]
            except BaseException as e:
                res = ['error', f'{type(e).__name__}: {e}']
            with os.fdopen(w, 'wb') as f:
                f.write(json.dumps(res).encode())
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        _write(out, data or json.dumps(['error', 'process died']).encode())


if __name__ == '__main__':
    main()
