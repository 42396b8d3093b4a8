# sourced by demo.sh: builds demo.c against the objects of the build in ./_build and runs it in a scratch directory
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; CONF=${CONF:-main}; B=$R/_build/$CONF/sgrid
T=$(mktemp -d); trap 'cd /; rm -rf "$T"' EXIT
for o in $B/lib/obj/main/*.o; do objcopy --redefine-sym main=sgrid_real_main $o $T/$(basename $o); done
INCS="-I$B/src/main/main -I/usr/include/suitesparse"
for m in $(cd $B/src; ls -d main/* utility/* physics/* physics/ScalarOnKerr/* Projects/* 2>/dev/null); do [ -d $B/src/$m ] && INCS="$INCS -I$B/src/$m"; done
LIBS=$(ls $B/lib/*.a)
gcc -w -O1 -fopenmp -DNONICOFUNCS -DLEVEL6_Pragmas -DTOPLEVEL_Pragmas -DUMFPACK -DSUITESPARSEQR -DLAPACK -DCBLAS -DFFTW3 -DGSL $INCS -I"$D" -c "$D/demo.c" -o $T/demo.o
g++ -fopenmp -o $T/demo $T/demo.o $T/*_main.o $T/main.o $T/parameters.o $T/skeleton.o $T/tensors.o $T/utilities.o $T/variables.o $T/endianIO.o $T/sgrid_MPI.o -Wl,--start-group $LIBS -Wl,--end-group -lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm 2>$T/link.log || { tail -5 $T/link.log; exit 99; }
cd $T
