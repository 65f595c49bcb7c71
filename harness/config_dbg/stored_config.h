// Configuration of the verification harnesses: debugger with small limits.
#ifndef STORED_CONFIG_H
#	define STORED_CONFIG_H
#	ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static bool const EnableAssert = true;
	static bool const CompressStreams = false;
	static int const DebuggerAlias = 3;
	static int const DebuggerMacro = 48;
	static int const DebuggerStreams = 2;
	static size_t const DebuggerStreamBuffer = 16;
};
} // namespace stored
#	endif
#endif
