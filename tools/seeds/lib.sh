#!/bin/bash
# Run with cwd = the repository, after its build.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
unset "${!APOLLO_@}"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
inc="-I$repo/include -I$repo/src -I$repo/src/connectors/kokkos/include -I$repo/_build/default"
