#include "fifocheck.h"
PART(4)
{
	single.insert(single.end(), {messages<0, 0>, messages<0, 0>, messages<16, 4>, messages<16, 2>, messages<1, 1>, messages<2, 2>, messages<3, 5>, messages<64, 8>});
	threads.insert(threads.end(), {elementsMT<uint64_t, 1>, elementsMT<uint64_t, 2>});
}
