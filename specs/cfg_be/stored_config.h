// configuration of a store in big-endian byte order, on a platform without unaligned access
#pragma once
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const StoreInLittleEndian = false;
	static bool const UnalignedAccess = false;
};
} // namespace stored
#endif
