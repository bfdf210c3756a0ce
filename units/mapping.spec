@include ../shim/core.spec
@include ../shim/map.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include ../shim/path.spec
@include ../shim/utf8.spec
@include ../shim/replace.spec
@include ../shim/views.spec
@include ../shim/net.spec
@include ../shim/cab.spec
@use rawread.inc
@include mapping.inc
