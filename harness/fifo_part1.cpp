#include "fifocheck.h"
PART(1)
{
	single.insert(single.end(), {elements<uint8_t, 0>, elements<int, 0>, elements<std::string, 0>, elements<Trip, 0>, elements<Small, 0>});
}
