// Lowers what the library evaluates in constant expressions: the standard headers first, as they are, then the
// question "is this a constant evaluation?" is answered yes for everything included afterwards.
#include <array>
#include <string>
#include <sstream>
#include <istream>
#include <ostream>
#include <iterator>
#include <functional>
#include <limits>
#include <memory>
#include <type_traits>
#include <utility>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <algorithm>
#if __cplusplus >= 201703L
#include <string_view>
#include <optional>
#include <variant>
#endif
#if __cplusplus >= 202002L
#include <compare>
#endif
namespace std { constexpr bool bf_in_constant_evaluation() noexcept { return true; } }
#define is_constant_evaluated() bf_in_constant_evaluation()
#define __builtin_is_constant_evaluated() true
#define __builtin_constant_p(x) (((void)(x)), true)
