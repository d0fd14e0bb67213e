#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static int const DebuggerAlias = 4;
	static int const DebuggerMacro = 90;
	static int const DebuggerStreams = 3;
	static bool const DebuggerListPrefixAlways = true;
};
}
#endif
#endif
