# Sourced by demo.sh: builds a program beside it against /repo's current tree
# (deal.II headers get a few newer names through the overlay in compat/).
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
L=/usr/lib/x86_64-linux-gnu
bash "$HERE/compat/gen.sh" "$W/compat" || exit 2
mkdir -p "$W/gen/pf-applications/base"
sed -e 's/@[A-Z_]*@/x/g' -e 's/#cmakedefine/\/\/#cmakedefine/' \
  "$REPO/include/pf-applications/base/revision.h.in" > "$W/gen/pf-applications/base/revision.h"
INC="-isystem $W/compat -I$REPO/include -I$REPO/applications/sintering/include -I$REPO/applications/structural/include -I$W/gen"
for d in $L/openmpi/include $L/openmpi/include/openmpi /usr/include/petsc /usr/include/trilinos \
  /usr/include/hdf5/openmpi /usr/include/scotch /usr/include/suitesparse /usr/include/opencascade /usr/include/slepc; do
  INC="$INC -isystem $d"
done
LIBS="$L/libdeal.ii.so.9.5.1 -ltbb -ltrilinos_nox -ltrilinos_noxepetra -ltrilinos_epetra \
 -ltrilinos_teuchosnumerics -ltrilinos_teuchoscomm -ltrilinos_teuchosparameterlist -ltrilinos_teuchosparser \
 -ltrilinos_teuchoscore -ltrilinos_kokkosalgorithms -ltrilinos_kokkoscontainers -ltrilinos_kokkoscore \
 $L/openmpi/lib/libmpi_cxx.so -lboost_iostreams -lboost_serialization -lboost_system -lp4est -lsc \
 $L/openmpi/lib/libmpi.so -lpetsc -ldl"
# build SOURCE [repo sources / flags...]
build() {
  local src=$1; shift
  local objs="" pids="" f flags="" i=0
  for f in "$@"; do case $f in -*) flags="$flags $f";; esac; done
  for f in "$src" "$@"; do
    case $f in -*) continue;; esac
    i=$((i+1))
    g++ -std=gnu++20 -O1 -g0 -w -DNDEBUG -pthread -include deal.II/base/compat_index_owner.h $INC $flags \
      -c "$f" -o "$W/$i.o" & pids="$pids $!"
    objs="$objs $W/$i.o"
  done
  for f in $pids; do wait $f || exit 2; done
  g++ -pthread $objs -o "$W/demo" -Wl,--as-needed $LIBS || exit 2
}
export DEAL_II_NUM_THREADS=1 OMP_NUM_THREADS=1 OMPI_MCA_rmaps_base_oversubscribe=1
run() { # run NP [args]
  local n=$1; shift
  (cd "$W" && timeout 120 mpirun --allow-run-as-root --oversubscribe -n "$n" ./demo "$@")
}
