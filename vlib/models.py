"""Models of the parallel algorithms, checked by TLC while the rest goes on."""
import concurrent.futures as cf
import os, re
from .core import *


class Models:
    """specs: (module, {environment}); results in the same order."""

    def __init__(self, c, specs, workers=3, par=2):
        self.c, self.specs = c, specs
        self.ex = cf.ThreadPoolExecutor(par)
        self.futures = [self.ex.submit(self._one, m, e, workers) for m, e in specs]

    def _one(self, module, env, workers):
        e = {k: str(v) for k, v in env.items()}
        out = tlc(self.c.work, module, workers=workers, env=e, timeout=800 if self.c.quick else 10000)
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states', out, re.M)
        if 'Model checking completed. No error' not in out or not m:
            raise ToolError('TLC: %s %s: %s' % (module, e, out[-3000:]))
        return int(m[-1][1]), int(m[-1][0]), re.findall(r'^"T;(.*);"$', out, re.M)

    def rows(self):
        """What each model printed"""
        R = []
        for (module, env), f in zip(self.specs, self.futures):
            st, tr, rows = f.result()
            self.c.model['states'] += st
            self.c.model['transitions'] += tr
            self.c.notes.append('%s %s: %d states' % (module, ' '.join('%s=%s' % kv for kv in sorted(env.items())), st)
                                + (', %d printed' % len(rows) if rows else ''))
            R.append(sorted(rows))
        self.ex.shutdown()
        return R
