#!/bin/bash
# c.sh ID [args]: run one check, short output.
/verif/check.py "$@" 2>&1 | grep -vE '^(  |Traceback|    |vf.env.Viol|$)' | cut -c1-1200
