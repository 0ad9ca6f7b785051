#pragma once
#include <takatori/util/std_all.h>
#include <memory>
#include <optional>
#include <type_traits>
#include "clone_tag.h"
#include "optional_ptr.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T, class = void> struct is_clonable : std::false_type {};
template<class T> struct is_clonable<T, std::void_t<
        decltype(std::unique_ptr<std::remove_const_t<T>>(std::declval<T const&>().clone()))>> : std::true_type {};
template<class T> inline constexpr bool is_clonable_v = is_clonable<T>::value;

template<class T, class = void> struct is_clone_constructible : std::false_type {};
template<class T> struct is_clone_constructible<T, std::enable_if_t<
        std::is_constructible_v<T, clone_tag_t, T const&> && std::is_constructible_v<T, clone_tag_t, T&&>>> : std::true_type {};
template<class T> inline constexpr bool is_clone_constructible_v = is_clone_constructible<T>::value;

namespace impl {
template<class T> struct is_smart : std::false_type {};
template<class T, class D> struct is_smart<std::unique_ptr<T, D>> : std::true_type {};
template<class T> struct is_smart<std::shared_ptr<T>> : std::true_type {};
template<class T> struct is_smart<optional_ptr<T>> : std::true_type {};
template<class T> struct is_smart<rvalue_ptr<T>> : std::true_type {};
template<class T> struct is_smart<rvalue_reference_wrapper<T>> : std::true_type {};
template<class T> inline constexpr bool is_plain = !is_smart<std::remove_cv_t<std::remove_reference_t<T>>>::value && !std::is_pointer_v<std::remove_reference_t<T>>;
}

// unique
template<class T, class = std::enable_if_t<impl::is_plain<T>>>
[[nodiscard]] inline std::unique_ptr<std::remove_cv_t<std::remove_reference_t<T>>> clone_unique(T&& object) {
    using R = std::remove_cv_t<std::remove_reference_t<T>>;
    return std::unique_ptr<R>(std::forward<T>(object).clone());
}
template<class T> [[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(T* p) { if (p) return clone_unique(*p); return {}; }
template<class T, class D> [[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::unique_ptr<T, D> const& p) { if (p) return clone_unique(*p); return {}; }
template<class T, class D> [[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>, D> clone_unique(std::unique_ptr<T, D>&& p) { return std::move(p); }
template<class T> [[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(std::shared_ptr<T> const& p) { if (p) return clone_unique(*p); return {}; }
template<class T> [[nodiscard]] inline std::unique_ptr<std::remove_const_t<T>> clone_unique(optional_ptr<T> p) { if (p) return clone_unique(*p); return {}; }
template<class T> [[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_ptr<T> p) { if (p) return clone_unique(*p); return {}; }
template<class T> [[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> p) { return clone_unique(p.get()); }

// shared
template<class T, class = std::enable_if_t<impl::is_plain<T>>>
[[nodiscard]] inline std::shared_ptr<std::remove_cv_t<std::remove_reference_t<T>>> clone_shared(T&& object) { return clone_unique(std::forward<T>(object)); }
template<class T> [[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(T* p) { return clone_unique(p); }
template<class T, class D> [[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(std::unique_ptr<T, D> const& p) { return clone_unique(p); }
template<class T, class D> [[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(std::unique_ptr<T, D>&& p) { return std::move(p); }
template<class T> [[nodiscard]] inline std::shared_ptr<T> clone_shared(std::shared_ptr<T> const& p) { return clone_unique(p); }
template<class T> [[nodiscard]] inline std::shared_ptr<T> clone_shared(std::shared_ptr<T>&& p) { return std::move(p); }
template<class T> [[nodiscard]] inline std::shared_ptr<std::remove_const_t<T>> clone_shared(optional_ptr<T> p) { return clone_unique(p); }
template<class T> [[nodiscard]] inline std::shared_ptr<T> clone_shared(rvalue_ptr<T> p) { return clone_unique(p); }
template<class T> [[nodiscard]] inline std::shared_ptr<T> clone_shared(rvalue_reference_wrapper<T> p) { return clone_unique(p); }
}
