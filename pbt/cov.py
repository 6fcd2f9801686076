"""Lines of peak that a run executes, for finding what no check reaches (PBT_COV=directory)."""
import os, sys


def start(d, root):
    mon = sys.monitoring
    mon.use_tool_id(3, 'pbt')
    hit = set()

    def line(code, n):
        f = code.co_filename
        if f.startswith(root):
            hit.add((f[len(root) + 1:], n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)

    def save():
        with open(os.path.join(d, f'{os.getpid()}.txt'), 'w') as f:
            f.writelines(f'{a}:{b}\n' for a, b in sorted(hit))
    return save
