#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerRead = false;
	static bool const DebuggerEcho = false;
	static bool const DebuggerList = false;
	static int const DebuggerAlias = 0;
	static bool const DebuggerIdentification = false;
	static int const DebuggerVersion = 0;
	static bool const DebuggerReadMem = false;
	static bool const DebuggerWriteMem = false;
	static int const DebuggerStreams = 0;
	static bool const DebuggerTrace = false;
	static bool const CompressStreams = false;
};
}
#endif
#endif
