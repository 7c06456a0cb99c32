#pragma once
// live heap bytes of this process (AddressSanitizer builds only)
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline size_t live_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
