"""Lines of the code under test that the cases execute (for development: DST_COVER=directory)."""
import os
import sys

_seen = set()


def start(repo):
    m = sys.monitoring
    m.use_tool_id(4, 'dst')

    def line(code, n):
        f = code.co_filename
        if f.startswith(repo) and '/test/' not in f:
            _seen.add((f[len(repo):].lstrip('/'), n))
        return m.DISABLE
    m.register_callback(4, m.events.LINE, line)
    m.set_events(4, m.events.LINE)


def stop():
    with open(os.path.join(os.environ['DST_COVER'], f'{os.getpid()}'), 'w') as f:
        f.writelines(f'{a} {b}\n' for a, b in sorted(_seen))
