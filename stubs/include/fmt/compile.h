// the analysis wants to see the format text itself
#pragma once
#include_next <fmt/compile.h>
#undef FMT_COMPILE
#define FMT_COMPILE(s) s
