// configuration of the debugger harness: all debugger capabilities
#pragma once
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
};
} // namespace stored
#endif
