# build.sh REPO STUBS : builds ./nrg
R=$1; S=$2
F="-O0 -std=gnu++20 -DNDEBUG -w -DFMT_HEADER_ONLY -I$R/c++ -I$R/c++/include -I$R/c++/symmetry -I$R/c++/symmetry/coefnew -isystem /usr/include/eigen3 -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -I$S -DNRG_SYM_BASIC -DNRG_ENABLE_CUDA=0 -DNRG_HAVE_OPENBLAS=1 -DNRG_HAVE_MKL=0"
for f in nrg nrg-lib sym-QS sym-QSZ; do g++ $F -c $R/c++/$f.cc -o $f.o 2> $f.err & done; wait
g++ -o nrg nrg.o nrg-lib.o sym-QS.o sym-QSZ.o -lboost_serialization -lboost_mpi -lmpi -lmpi_cxx -lopenblas -llapack -lgsl -lgmp -lboost_system -ldl -fopenmp 
