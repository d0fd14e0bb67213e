#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
#ifdef __cplusplus
namespace stored {
struct Config : public DefaultConfig {
	static bool const StoreInLittleEndian = false;
};
}
#endif
#endif
