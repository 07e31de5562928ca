#!/bin/bash
# stubs for every MPI entry point the simulator does not implement
# usage: gen_stubs.sh guest.o out.c
nm "$1" | awk '$2=="T"||$2=="W"{print $3}' | grep '^MPI_' | sort -u > "$2.have"
{
  echo 'void sim_unimpl(const char*);'
  nm -D /usr/lib/x86_64-linux-gnu/libmpi.so.40 | awk '$2=="T"||$2=="W"{print $3}' | grep '^MPI_' | sort -u |
   grep -vxFf "$2.have" | grep -vE '_f2c$|_c2f$|_FN$|_fn$' | while read -r s; do echo "void $s(void){sim_unimpl(\"$s\");}"; done
} > "$2"
