#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const AvoidDynamicMemory = true;
	static bool const DebuggerListPrefixAlways = true;
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static int const DebuggerStreams = 1;
	static size_t const DebuggerStreamBuffer = 64;
	static size_t const DebuggerStreamBufferOverflow = 64;
};
}
#endif
#endif
