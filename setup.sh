#!/bin/bash
# nothing to download or build: checks front end and solver are usable
cd "$(dirname "$0")" && python3-vt -c "
import z3, sys; sys.path.insert(0, '.')
import vcg.calls; print('z3', z3.get_version_string())"
