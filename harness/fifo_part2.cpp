#include "fifocheck.h"
PART(2)
{
	single.insert(single.end(), {elements<int, 1>, elements<std::string, 2>, elements<uint8_t, 3>, elements<Small, 7>, elements<Trip, 64>, elements<int, 100>});
}
