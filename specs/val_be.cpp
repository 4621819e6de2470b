// C15, for a store in big-endian byte order on a platform without unaligned access
#define VF_BE
#include "val.cpp"
