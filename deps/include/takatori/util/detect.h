#pragma once
#include <takatori/util/std_all.h>
#include <type_traits>
namespace takatori::util {
struct nonesuch { nonesuch() = delete; ~nonesuch() = delete; nonesuch(nonesuch const&) = delete; void operator=(nonesuch const&) = delete; };
namespace impl {
template<class D, class V, template<class...> class Op, class... A> struct detector { using value_t = std::false_type; using type = D; };
template<class D, template<class...> class Op, class... A>
struct detector<D, std::void_t<Op<A...>>, Op, A...> { using value_t = std::true_type; using type = Op<A...>; };
}
template<template<class...> class Op, class... A> using is_detected = typename impl::detector<nonesuch, void, Op, A...>::value_t;
template<template<class...> class Op, class... A> inline constexpr bool is_detected_v = is_detected<Op, A...>::value;
template<template<class...> class Op, class... A> using detect = is_detected<Op, A...>;
template<template<class...> class Op, class... A> inline constexpr bool detect_v = is_detected<Op, A...>::value;
template<template<class...> class Op, class... A> using detect_t = typename impl::detector<nonesuch, void, Op, A...>::type;
}
