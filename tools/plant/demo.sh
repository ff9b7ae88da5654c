#!/bin/bash
# Compiles demo.C against the library built from /repo, and runs it: exit 0 if the property holds there.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} OPENBLAS_NUM_THREADS=1
L=/opt/vp/ifem-scope/link.py
LD="g++ -fopenmp -Wl,--unresolved-symbols=ignore-all"; [ -f $L ] && LD="python3 $L g++ -fopenmp"
g++ -std=gnu++20 -O1 -w -fopenmp -DHAS_CEREAL=1 -DHAS_HDF5=1 -DHAS_ISTL=1 -DHAS_SUPERLU=1 -DHAS_UMFPACK=1 -DHAVE_NULLPTR=1 \
 -DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DHAVE_UMFPACK=1 -DDUNE_ISTL_VERSION_MAJOR=2 -DDUNE_ISTL_VERSION_MINOR=9 \
 -DDUNE_ISTL_VERSION_REVISION=0 -DSUPERLU_INT_TYPE=int -DSUPERLU_MIN_VERSION_4_3=1 -DSUPERLU_MIN_VERSION_5=1 -DSUPERLU_NTYPE=1 \
 -DSUPERLU_POST_2005_VERSION=1 -DPROFILE_LEVEL=3 -DReal=double -DUSE_CBLAS=1 -DUSE_OPENMP=1 -DepsZ=1.0e-12 \
 -I_build -I_build/src -IApps/Utils -I3rdparty -Isrc/ASM -Isrc/LinAlg -Isrc/SIM -Isrc/Utility -Isrc/Eig -I3rdparty/autodiff \
 -I3rdparty/expreval -isystem /usr/include/superlu -isystem /usr/include/hdf5/serial -isystem /usr/include/suitesparse \
 -c "$D/demo.C" -o "$T/demo.o" || exit 99
$LD "$T/demo.o" -o "$T/demo" _build/lib/libIFEMAppUtils.a _build/lib/libIFEM.a -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial \
 -lopenblas -larpack -ltinyxml2 /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lsuperlu -lumfpack -lsuitesparseconfig \
 -ldunecommon -lgfortran -lquadmath -lm -ldl -lpthread || exit 98
cd "$T" && timeout 120 "$T/demo"
