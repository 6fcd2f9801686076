"""Nothing has to be built: checks that the tools the checks need are present."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pbt.hyp  # noqa
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d), exist_ok=True)
print('ok', sys.version.split()[0], 'verilator:', shutil.which('verilator'))
