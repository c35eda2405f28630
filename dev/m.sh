#!/bin/sh
# dev/m.sh PROP: mutation run, without the lines of mutants that are equivalent or break any use
cd "$(dirname "$0")/.." && timeout 1500 python3 dev/mutate.py "$@" | grep -v "swap statements\|swap args\|swap elements\|(undecided.*unk(name\|MISSED.*delete [a-z_.]* = .*undecided" | cut -c1-230 | tail -40
