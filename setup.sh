#!/bin/bash
# builds the IR dumper from irdump/ (offline)
cd "$(dirname "$0")" && /opt/veriftools/pyvenv/bin/python -c 'from qedv import ir; print(ir.irdump_exe())'
