// clang + libstdc++ do not declare ::nullptr_t, g++ does
#include <cstddef>
using std::nullptr_t;
