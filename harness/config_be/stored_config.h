// Configuration of the verification harnesses: a store in big endian, without unaligned access.
#ifndef STORED_CONFIG_H
#	define STORED_CONFIG_H
#	ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
	static bool const EnableAssert = true;
	static bool const StoreInLittleEndian = false;
	static bool const UnalignedAccess = false;
};
} // namespace stored
#	endif
#endif
