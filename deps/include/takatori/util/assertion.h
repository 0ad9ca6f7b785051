#pragma once
#include <takatori/util/std_all.h>
#include <cassert>
#include <cstdlib>
#if defined(BOOST_ASSERT)
#undef BOOST_ASSERT
#endif
// the stand-in keeps assertions on: a failed precondition aborts the simulated run
#define BOOST_ASSERT(expr) ((expr) ? (void) 0 : ::std::abort())
