#!/bin/bash
# Builds the simulator and TDycore (from /repo's working tree) into /verif/build.
# usage: build.sh [variant]   variant: std (default) | asan
set -e
V=${1:-std}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${TDY_REPO:-/repo}
OUT=${TDY_BUILD:-$HERE/build}
. /opt/vp/env.sh >/dev/null 2>&1 || true
PETSC_DIR=${PETSC_DIR:-/opt/petsc-3.17.3}
MPI_INC=/usr/lib/x86_64-linux-gnu/openmpi/include
HDF5_INC=/usr/include/hdf5/openmpi
mkdir -p "$OUT"
exec 9>"$OUT/.lock"; flock 9
S=$HERE/sim
CC=gcc
# simulator library (independent of TDycore)
if [ ! -e "$OUT/mpi/libmpi.so.40" ] || [ -n "$(find "$S" -name 'sim*.[ch]' -newer "$OUT/mpi/libmpi.so.40" -o -name mpifh.c -newer "$OUT/mpi/libmpi.so.40")" ]; then
  mkdir -p "$OUT/mpi"
  $CC -std=gnu11 -O2 -g -fPIC -shared -w -I$MPI_INC -Wl,-soname,libmpi.so.40 -o "$OUT/mpi/libmpi.so.40.tmp" $S/simcore.c $S/simio.c $S/simmpi.c -ldl
  mv "$OUT/mpi/libmpi.so.40.tmp" "$OUT/mpi/libmpi.so.40"
  ln -sf libmpi.so.40 "$OUT/mpi/libmpi.so"
  $CC -std=gnu11 -O2 -fPIC -shared -w -Wl,-soname,libmpi_mpifh.so.40 -o "$OUT/mpi/libmpi_mpifh.so.40" $S/mpifh.c "$OUT/mpi/libmpi.so.40"
fi
D=$OUT/$V; mkdir -p "$D/o"
FLAGS="-std=gnu11 -g -O0 -fPIC -w -fno-strict-aliasing -fno-omit-frame-pointer -I$REPO/include -I$PETSC_DIR/include -I$MPI_INC -I$HDF5_INC -I$S"
[ "$V" = asan ] && FLAGS="$FLAGS -fsanitize=address"
# one content-addressed object per source: a changed header or source always rebuilds
HH=$( (cd $REPO/include && find . -name '*.h' -print0 | sort -z | xargs -0 cat; echo "$FLAGS"; cat $S/sim.h $S/fx.h) | sha1sum | cut -c1-16)
SRCS=$(cd $REPO && find src -name '*.c' -not -path '*/tests/*' | sort)
LIST=""; TODO=""
for f in $SRCS; do
  k=$( (echo "$HH $f"; cat "$REPO/$f") | sha1sum | cut -c1-20)
  o=$D/o/$(echo $f | tr '/' '_').$k.o
  LIST="$LIST $o"
  [ -e "$o" ] || TODO="$TODO $REPO/$f $o"
done
for f in driver.c simrun.c; do
  k=$( (echo "$HH $f"; cat "$S/$f") | sha1sum | cut -c1-20)
  o=$D/o/$f.$k.o
  LIST="$LIST $o"
  [ -e "$o" ] || TODO="$TODO $S/$f $o"
done
# the Fortran interface and the Fortran half of the driver
FF=${FLAGS/-std=gnu11/}
k=$( (echo "$HH"; find $REPO/include $REPO/src/f90-mod -name '*.h' -o -name '*.F90' | sort | xargs cat; cat $S/fdriver.F90) | sha1sum | cut -c1-20)
FO="$D/o/fmod.$k.o $D/o/fdriver.$k.o"
if [ ! -e "$D/o/fdriver.$k.o" ]; then
  rm -rf "$D/mod"; mkdir -p "$D/mod"
  FSRC=$(cd $REPO && find src -name '*.F90' -not -path '*/tests/*' | sort)
  i=0; FP=""
  for f in $FSRC; do gfortran $FF -ffree-line-length-none -J"$D/mod" -I"$D/mod" -c "$REPO/$f" -o "$D/o/f$i.tmp.o"; FP="$FP $D/o/f$i.tmp.o"; i=$((i+1)); done
  ld -r -o "$D/o/fmod.$k.o" $FP; rm -f $FP
  gfortran $FF -ffree-line-length-none -J"$D/mod" -I"$D/mod" -c "$S/fdriver.F90" -o "$D/o/fdriver.tmp.o"
  mv "$D/o/fdriver.tmp.o" "$D/o/fdriver.$k.o"
fi
LIST="$LIST $FO"
if [ -n "$TODO" ] || [ ! -e "$D/simrun" ] || [ "$(cat $D/list 2>/dev/null)" != "$LIST" ]; then
  if [ -n "$TODO" ]; then
    echo $TODO | tr ' ' '\n' | paste - - | xargs -P 8 -L 1 sh -c "$CC $FLAGS -c \"\$0\" -o \"\$1.tmp\" && mv \"\$1.tmp\" \"\$1\""
  fi
  $CC ${FLAGS//-fPIC/} -rdynamic -o "$D/simrun.tmp" $LIST -L$PETSC_DIR/lib -lpetsc -l:libhdf5_openmpi.so.103 -llapack -lblas -lgfortran -Wl,--no-as-needed "$OUT/mpi/libmpi.so.40" "$OUT/mpi/libmpi_mpifh.so.40" -Wl,--as-needed -lm -ldl -Wl,-rpath,$OUT/mpi:$PETSC_DIR/lib -Wl,--disable-new-dtags -Wl,--allow-shlib-undefined
  mv "$D/simrun.tmp" "$D/simrun"
  echo -n "$LIST" > "$D/list"
  # drop stale objects
  for o in $D/o/*.o; do case " $LIST " in *" $o "*) ;; *) rm -f "$o";; esac; done
fi
