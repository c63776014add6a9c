#!/bin/bash
# run in the repository after its build; compiles demo.cc against the library built there
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
L=/usr/lib/x86_64-linux-gnu
mpicxx -std=c++11 -w -g -DENABLE_ExodusII -I_build/include "$D/demo.cc" _build/libmstk.a $L/libexoIIv2c.so $L/libnetcdf.so.19 $L/hdf5/serial/libhdf5_hl.so $L/hdf5/serial/libhdf5.so $L/libmetis.so $L/libtrilinos_zoltan.so.13.2 $L/libptscotch.so $L/libptscotcherr.so $L/libscotch.so $L/libscotcherr.so -lpthread -ldl -lm -lz -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
