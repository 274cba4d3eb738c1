#!/bin/bash
# Exit 0: the property holds for this input. Run with cwd = the repository, after its build.
here="$(cd "$(dirname "$0")" && pwd)"
exec python3 "$here/demo.py"
