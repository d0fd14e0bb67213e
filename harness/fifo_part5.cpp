#include "fifocheck.h"
PART(5)
{
	single.insert(single.end(), {messages<100, 3>, messages<100, 60>, messages<128, 16>, messages<200, 16>, messages<255, 4>, messages<255, 254>, messages<256, 16>, messages<1000, 125>, messages<40000, 300>});
	threads.insert(threads.end(), {messagesMT<16, 4>, messagesMT<16, 1>});
}
