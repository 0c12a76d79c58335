"""The real modules of /repo, not instrumented (no z3 needed)."""
import importlib
import importlib.util
import os
import sys
import warnings

warnings.simplefilter('ignore', SyntaxWarning)     # of the sources under test

REPO = os.environ.get('GCS_REPO', '/repo')
NAMES = {'storage': 'gcs.storage', 'slice_tools': 'gcs.slice_tools', 'basics': 'gcs_basics',
         'version': 'gcs._version', 'versioneer': 'versioneer'}
ALONE = ('version', 'versioneer')


class Modules:
    def __getattr__(self, n):
        if n in ALONE:
            path = os.path.join(REPO, *NAMES[n].split('.')) + '.py'
            spec = importlib.util.spec_from_file_location('alone_' + n, path)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
        else:
            m = importlib.import_module(NAMES[n])
        setattr(self, n, m)
        return m


def load_real():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # fresh modules: no state survives from an earlier input
    for k in [k for k in sys.modules if k.split('.')[0] in ('gcs', 'gcs_basics')
              and k not in ('gcs', 'gcs._version')]:
        del sys.modules[k]
        if k.startswith('gcs.'):
            sys.modules['gcs'].__dict__.pop(k[4:], None)
    return Modules()
