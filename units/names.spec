@include ../shim/core.spec
@include ../shim/map.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include ../shim/name.spec
@include names.inc
