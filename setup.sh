#!/bin/bash
# Nothing to build: the checks run the working tree of /repo.  Verify that the interpreter can load both.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x $py ] || py=python3
cd "$here" || exit 1
exec $py -B -c "
import sys
sys.path.insert(0, '/verif'); sys.path.insert(0, '$here')
from mc import lib, streams, grammar
import hachoir.stream, hachoir.field, hachoir.parser
print('ready')"
