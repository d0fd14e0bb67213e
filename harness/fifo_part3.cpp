#include "fifocheck.h"
PART(3)
{
	single.insert(single.end(), {elements<uint8_t, 127>, elements<uint8_t, 128>, elements<Small, 200>, elements<int, 254>, elements<uint8_t, 255>, elements<std::string, 256>, elements<uint8_t, 1000>, elements<uint16_t, 40000>});
}
