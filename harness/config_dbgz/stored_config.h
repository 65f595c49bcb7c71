// Configuration of the verification harnesses: debugger with compressed streams.
#ifndef STORED_CONFIG_H
#	define STORED_CONFIG_H
#	ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static bool const EnableAssert = true;
	static bool const CompressStreams = true;
	static int const DebuggerStreams = 2;
	static size_t const DebuggerStreamBuffer = 64;
};
} // namespace stored
#	endif
#endif
