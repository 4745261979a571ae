#!/bin/sh
# replay: show engine result of a replay file
cd /verif && python3 - "$@" <<'E'
import sys,json
from pv import core
p=sys.argv[1]; r=json.load(open(p))
c=core.load(r["property"]); print(c.summary(r["case"])); print(core._one(c, core.Engine(core.B.build(), c.nso), r["case"]))
E
