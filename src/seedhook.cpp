#include <cstdlib>
#include <ctime>
extern "C" time_t time(time_t* t) noexcept { const char* s = getenv("VC_SEED"); time_t v = s ? (time_t)atoll(s) : 1234567890; if (t) *t = v; return v; }
