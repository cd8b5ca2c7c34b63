#!/bin/bash
# builds the MIR dumper (the only compiled part of the framework)
cd "$(dirname "$0")/.." || exit 2
exec python3-vt -c "
import sys, tempfile, shutil
sys.path.insert(0, 'vg')
import mirdata
s = tempfile.mkdtemp(prefix='vg-')
try: print(mirdata.driver(s))
finally: shutil.rmtree(s)
"
