#!/bin/bash
# Generates, in $1, a small overlay of deal.II headers that gives the installed
# deal.II 9.5.1 the handful of newer member/function names hpsint uses, so that
# the parts of hpsint which the repository's own build leaves out here (tracker
# instantiation, drivers, serialization, operators) compile unchanged.
# Only names are added; no behaviour of deal.II is changed.
set -e
OUT=$1
H=/usr/include/deal.II
SELF=$(cd "$(dirname "$0")" && pwd)
STAMP=$(cat "$SELF/gen.sh" "$SELF"/static/deal.II/*/* | sha256sum)
[ -f "$OUT/.stamp" ] && [ "$(cat "$OUT/.stamp")" = "$STAMP" ] && exit 0
rm -rf "$OUT"
mkdir -p "$OUT/deal.II"/{dofs,lac,base,numerics}
cp -r "$SELF/static/." "$OUT/"

sed 's/^  get_communicator() const;/  get_communicator() const;\n  MPI_Comm get_mpi_communicator() const { return get_communicator(); }/' \
  $H/dofs/dof_handler.h > "$OUT/deal.II/dofs/dof_handler.h"

sed 's/^  reinit(const IndexSet &local_constraints = IndexSet());/  reinit(const IndexSet \&local_constraints = IndexSet());\n  void reinit(const IndexSet \&, const IndexSet \&relevant) { this->reinit(relevant); }/' \
  $H/lac/affine_constraints.h > "$OUT/deal.II/lac/affine_constraints.h"

sed -E 's/^( *)sum\(\)$/\1sum() const/; s/^(.*::)sum\(\)$/\1sum() const/' \
  $H/base/vectorization.h > "$OUT/deal.II/base/vectorization.h"

echo "$STAMP" > "$OUT/.stamp"
