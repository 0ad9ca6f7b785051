#pragma once
#include <takatori/util/std_all.h>
#include <exception>
#include <stdexcept>
#include <utility>
namespace takatori::util {
template<class E> [[noreturn]] void throw_exception(E const& e) { throw e; }
}
