// the only place that knows how the library is brought up
#include "sfw.h"
#include "vt.h"

namespace vt {
void lib_setup() {
	SFWCore::setup();
	virtual_clock(true); // the library counts time from its first look at the clock
	seed_entropy(0);
	SFWTime::time_ns();
	virtual_clock(false);
}
void lib_cleanup() { SFWCore::cleanup(); }
void lib_use(long &bytes, long &objects) {
	bytes = (long)Memory::get_mem_usage();
	objects = ObjectDB::get_object_count();
}
} // namespace vt
