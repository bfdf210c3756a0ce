@include ../shim/core.spec
@include ../shim/sort.spec
@include ../shim/map.spec
@include ../shim/fmt.spec
@include ../shim/str.spec
@include ../shim/bytes.spec
@include ../shim/path.spec
@include ../shim/name.spec
@include ../shim/write.spec
@include ../shim/obj.spec
@include ../shim/pe.spec
@include ../shim/views.spec
@include ../shim/net.spec
@include ../shim/cab.spec
@include ../shim/fat.spec
@include ../shim/print.spec
@use platform.inc
@use line.inc
@use symbol.inc
@use utils.inc
@use reading.inc
@use source.inc
@use names.inc
@use inlines.inc
@use collector.inc
@use object.inc
@use module.inc
@use cache.inc
@use winutils.inc
@include formats.inc
