#!/bin/bash
# every sim_X defined in the simulator replaces X in the library's objects
cd "$(dirname "$0")"
grep -ohE '\bsim_[A-Za-z0-9_]+ ?(\(|=)' core.cpp kernel.cpp stdio.cpp | grep -oE 'sim_[A-Za-z0-9_]+' | sort -u | grep -vE '^sim_(stdio_flush_all|lseek_for_stdio|guard_fire)$' | sed -E 's/^sim_(.*)$/\1 sim_\1/'

