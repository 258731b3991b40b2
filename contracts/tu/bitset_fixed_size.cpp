// instantiates every member of the fixed size bitset for the sizes the elimination dispatches to
#include "bitset_fixed_size.h"
#define X(N) template class panda::BitsetFixedSize<N>;
X(1) X(2) X(3) X(4) X(6) X(8) X(10) X(12) X(16) X(20) X(30) X(40) X(50) X(75) X(100) X(150) X(200)
