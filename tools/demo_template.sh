#!/bin/bash
# Builds demo.cpp with the hilapp and the libraries of the tree this is run in (cwd) and runs it in a scratch
# directory: exit 0 if the program finds what it expects on every rank.
NDIM=@NDIM@
ARCH=@ARCH@
NP=@NP@
ARGS=(@ARGS@)
HERE=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
export OMPI_CXX=g++ OMPI_CC=gcc OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}
DEFS="-DNDIM=$NDIM -DSPECIAL_BOUNDARY_CONDITIONS -DGIT_SHA_VALUE=local"
HOPT="" COPT="-fno-rtti" LAYOUT=setup_layout_generic LD=""
case $ARCH in
avx) HOPT="-target:AVX"; DEFS="$DEFS -DAVX -DSUBNODE_LAYOUT"; COPT="-fabi-version=0 -fomit-frame-pointer"
    LAYOUT=setup_layout_vector ;;
openmp) HOPT="-target:openmp $(mpic++ -xc++ --std=c++17 -Wp,-v -E /dev/null 2>&1 | sed -n 's/^ \//-I\//p' | tr '\n' ' ') -DOPENMP"
    DEFS="$DEFS -DOPENMP"; COPT="-fno-rtti -fopenmp"; LD="-lgomp" ;;
esac
INC="-I$R/libraries -I$R/libraries/plumbing -I$R/libraries/datatypes -I$R/libraries/tools"
P=$R/libraries/plumbing
one() {
    local n; n=$(basename "$1" .cpp)
    "$R/hilapp/bin/hilapp" $HOPT -std=c++17 $DEFS $INC "$1" -o "$T/$n.cpt" > "$T/$n.log" 2>&1 &&
    mpic++ $DEFS $INC -x c++ --std=c++17 -O1 -mavx2 -mfma -w $COPT "$T/$n.cpt" -c -o "$T/$n.o" >> "$T/$n.log" 2>&1 ||
    { tail -5 "$T/$n.log"; touch "$T/failed"; }
}
for s in initialize input cmdline random lattice map_node_layout memalloc timing test_gathers com_mpi memory_pool fft \
    $LAYOUT; do one "$P/$s.cpp" & done
one "$R/libraries/datatypes/extended.cpp" &
one "$HERE/demo.cpp" &
wait
[ -e "$T/failed" ] && { echo "demo does not build"; exit 98; }
mpic++ -o "$T/demo" "$T"/*.o -lfftw3 -lfftw3f -lm $LD || exit 97
mkdir "$T/run" && cd "$T/run" || exit 96
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_pml=ob1 \
    OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 \
    OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
timeout -k 5 120 mpirun --oversubscribe --bind-to none -n $NP "$T/demo" "${ARGS[@]}" > "$T/out" 2>&1 < /dev/null
rc=$?
grep -E "^(DEMO|ERROR|.*rror)" "$T/out" | head -20
[ $rc -eq 0 ] && grep -q "^DEMO: ok" "$T/out" && exit 0
echo "demo failed (exit $rc)"
tail -5 "$T/out"
exit 1
