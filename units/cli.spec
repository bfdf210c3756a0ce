@include ../shim/core.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include ../shim/path.spec
@include ../shim/views.spec
@include ../shim/net.spec
@include ../shim/cab.spec
@include ../shim/print.spec
@include ../shim/clap.spec
@use utils.inc
@use reading.inc
@include arch.inc
@include cli.inc
