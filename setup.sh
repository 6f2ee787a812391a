#!/bin/sh
# Nothing to build: the checks read /repo's source on every run. Just makes sure that the tools are there.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3; print('z3', z3.get_version_string())
import carbox, dag_cbor, lexrpc.server, cryptography, google.cloud.ndb
"
