@unit print_reads
@tu src/algorithm_row_operations.cpp
@mode Z
@native int
@ostreams
@lib prelude linalg gcdlib rowgcd string stream keywords vertices relation constraint named names constraints print readback
@import print
