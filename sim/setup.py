"""setup_cmd: nothing is compiled; check that what the checks need is there."""
import shutil
import sys

import fs  # noqa: F401
import livereload  # noqa: F401

import rsm  # noqa: F401

if not shutil.which("node"):
    sys.exit("node is missing")
print("ready:", rsm.__file__)
