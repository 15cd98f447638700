#!/bin/bash
# Checks that the tools are there. The checks build what they need themselves, from /repo's working tree.
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -c 'import numpy, scipy, netCDF4' && gcc --version > /dev/null && g++ --version > /dev/null && mkdir -p evidence build
