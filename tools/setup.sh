#!/bin/bash
# offline set-up: compiles /repo's current tree to LLVM IR and to the replay libraries (both configurations)
cd "$(dirname "$0")/.." && exec python3-vt - <<'P'
import sys; sys.path[:0]=["vlib"]
import world

for conf in ('main','alt'):
    p=world.program(conf); l=world.reallib(conf)
    print(conf,len(p.funcs) if hasattr(p,'funcs') else '')
P
