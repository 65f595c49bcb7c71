// Configuration of the verification harnesses.
#ifndef STORED_CONFIG_H
#	define STORED_CONFIG_H
#	ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static bool const EnableAssert = true;
};
} // namespace stored
#	endif
#endif
