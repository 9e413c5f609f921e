#!/bin/sh
# usage: sym.sh PROP addr... : symbolise addresses of a crash report
p=$1; shift
llvm-symbolizer-18 -e "$(dirname "$0")/../.build/bin_$p" "$@"
