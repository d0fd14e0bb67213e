#include "fifocheck.h"
PART(7)
{
	single.insert(single.end(), {loopback1<10, 2>, loopback1<16, 4>, loopback1<100, 12>, loopback1<255, 31>, loopback1<1000, 100>});
	threads.insert(threads.end(), {messagesMT<4, 8>, messagesMT<64, 8>});
}
