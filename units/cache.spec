@include ../shim/core.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include ../shim/text.spec
@include ../shim/path.spec
@include ../shim/pe.spec
@include ../shim/views.spec
@include ../shim/net.spec
@include ../shim/cab.spec
@include ../shim/tasks.spec
@use utils.inc
@use reading.inc
@include cache.inc
@include heads.inc
