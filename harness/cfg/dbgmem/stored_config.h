#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static int const DebuggerAlias = 3;
	static int const DebuggerMacro = 48;
	static int const DebuggerStreams = 3;
	static size_t const DebuggerStreamBuffer = 100;
	static size_t const DebuggerStreamBufferOverflow = 40;
	static bool const CompressStreams = false;
};
}
#endif
#endif
