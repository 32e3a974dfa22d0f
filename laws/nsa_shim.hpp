#pragma once
#include <cstddef>
namespace boost { namespace lockfree { namespace detail { constexpr std::size_t cacheline_bytes = 64; } } }
