#include "fifocheck.h"
PART(8)
{
	threads.insert(threads.end(), {messagesMT<200, 16>, messagesMT<255, 40>, messagesMT<1000, 125>, loopbackMT<10, 2>, loopbackMT<64, 8>, loopbackMT<300, 4>, loopbackMT<1000, 125>});
}
