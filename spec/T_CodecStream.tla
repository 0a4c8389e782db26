--------------------------- MODULE T_CodecStream ---------------------------
EXTENDS CodecStream
VARIABLES l, st
INSTANCE TraceBase WITH Start <- SStart, Eval <- SEval
=============================================================================
