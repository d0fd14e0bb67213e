#include "fifocheck.h"
PART(6)
{
	threads.insert(threads.end(), {elementsMT<std::string, 3>, elementsMT<uint64_t, 16>, elementsMT<Trip, 127>, elementsMT<int, 200>, elementsMT<std::string, 255>, elementsMT<Small, 254>});
}
