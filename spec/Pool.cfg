SPECIFICATION FairSpec
CONSTANTS MaxN = 4 MaxW = 3 MaxFail = 2
INVARIANTS Ordered OnceEach Capped ExcFirst OkAll Abstracts Emit
PROPERTIES Answers Stable
CHECK_DEADLOCK FALSE
