#!/bin/bash
# builds the harness against /repo's working tree
cd "$(dirname "$0")" && exec python3 -c "import sys; sys.path.insert(0, 'tools'); import conf; conf.binary(); conf.cli(); print('harness built')"
