#!/bin/bash
# runs every check on the current tree, printing what is not discharged
cd /verif; for p in $(python3 -c "
import sys; sys.path.insert(0,'/verif')
from sa.props import PROPS; print(*PROPS)"); do python3 sa/check.py $p -v "$@" | grep -v '^eq' | cut -c1-300; done
