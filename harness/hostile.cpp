// Document conversions and leak checks for the sanitizer build.
#include "objects.hpp"
using namespace obj;

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define WITH_LSAN 1
#    endif
#endif
#ifdef WITH_LSAN
#    include <sanitizer/lsan_interface.h>
#endif

// conv format json: the document in another encoding (the codec's own encoder)
CMD("conv")
{
    char f = a.next()[0];
    auto j = json::parse(a.blob());
    auto v = f == 'b' ? json::to_bson(j) : f == 'm' ? json::to_msgpack(j) : f == 'c' ? json::to_cbor(j) : json::to_ubjson(j);
    o.bytes(v);
} END;
// leaks: 1 when something allocated since the start is unreachable
CMD("leaks")
{
#ifdef WITH_LSAN
    o.u64(__lsan_do_recoverable_leak_check());
#else
    o.u64(0);
#endif
} END;
