// Included before every library source: std::string is instantiated in the library's
// objects, so that the scheduler can also switch inside the functions of a string.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
