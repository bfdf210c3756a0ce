@include ../shim/core.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include ../shim/path.spec
@include utils.inc
