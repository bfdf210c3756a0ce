@include ../shim/core.spec
@include ../shim/sort.spec
@include ../shim/map.spec
@include ../shim/fmt.spec
@include line.inc
