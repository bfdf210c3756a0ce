# Shim: the width of usize on the platforms this runs on.
@raw
global size_of usize == 8;
