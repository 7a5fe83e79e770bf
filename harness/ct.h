// Forced in front of a unit: every "am I being evaluated at compile time" question is answered yes, so that
// the compile-time paths of the library become ordinary code.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <memory>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <concepts>
#include <iterator>
#include <limits>
#include <functional>
#include <iostream>
#include <sstream>
#include <map>
#include <optional>
#include <chrono>
namespace std { constexpr bool milo_verif_true() noexcept { return true; } }
#define is_constant_evaluated milo_verif_true
