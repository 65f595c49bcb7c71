// Configuration of the verification harnesses: debugger with small limits and a stream overflow area.
#ifndef STORED_CONFIG_H
#	define STORED_CONFIG_H
#	ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static bool const EnableAssert = true;
	static bool const CompressStreams = false;
	static int const DebuggerAlias = 3;
	static int const DebuggerMacro = 48;
	static int const DebuggerStreams = 2;
	static size_t const DebuggerStreamBuffer = 16;
	static bool const AvoidDynamicMemory = true;
	static size_t const DebuggerStreamBufferOverflow = 8;
	static bool const DebuggerListPrefixAlways = true;
};
} // namespace stored
#	endif
#endif
