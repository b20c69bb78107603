// Translation units 5..9 take the second half of the element types.
#pragma once
#ifndef TU
#error "built with split=10"
#endif
#if TU == 5
#undef TU
#define TU 0
#define TSUB 1
#elif TU == 6
#undef TU
#define TU 1
#define TSUB 1
#elif TU == 7
#undef TU
#define TU 2
#define TSUB 1
#elif TU == 8
#undef TU
#define TU 3
#define TSUB 1
#elif TU == 9
#undef TU
#define TU 4
#define TSUB 1
#else
#define TSUB 0
#endif
#if TSUB == 0
#define TSUB_NAME "1"
#else
#define TSUB_NAME "2"
#endif
