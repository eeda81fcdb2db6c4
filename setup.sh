#!/bin/bash
# Nothing to build: checks that what the framework runs on is there.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
python3-vt -B -c 'import hypothesis' && command -v java >/dev/null && test -f /usr/share/java/jython.jar && test -d /opt/jylib
