// xtensor 0.26 moved this header into a subdirectory; Ubuntu has 0.25, where it is flat.
#pragma once
#include <xtensor/xadapt.hpp>
