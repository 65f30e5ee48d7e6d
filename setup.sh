#!/bin/bash
# Nothing is built: the checks import ibl from /repo's working tree.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py="$(command -v python3)"
exec "$py" -B -c '
import sys, os
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import numpy, scipy, ibl
print("python", sys.version.split()[0], "numpy", numpy.__version__,
      "scipy", scipy.__version__, "ibl from", os.path.dirname(ibl.__file__))'
