// Stand-in for jsoncons (not installed here); see jsoncons_ext/cbor/cbor.hpp.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>
