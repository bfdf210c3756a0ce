@include ../shim/core.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include platform.inc
