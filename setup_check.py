#!/usr/bin/env python3
"""setup_cmd: nothing to build; confirm that the interpreter, z3 and the code under test load."""
import subprocess
import sys

sys.exit(
    subprocess.call(
        [
            "/opt/venv/bin/python",
            "-c",
            "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; "
            "sys.path.insert(0, '/repo/src'); sys.dont_write_bytecode = True; import psrpcore; print('z3', z3.get_version_string(), 'ok')",
        ]
    )
)
