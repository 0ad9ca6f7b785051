#pragma once
// Stand-in for takatori/decimal/triple.h
#include <takatori/util/std_all.h>
#include <decimal.hh>

namespace takatori::decimal {

class triple {
public:
    constexpr triple() = default;
    constexpr triple(std::int64_t sign, std::uint64_t high, std::uint64_t low, std::int32_t exponent) noexcept :
        sign_ { sign == 0 ? 0 : (sign < 0 ? -1 : +1) }, high_ { high }, low_ { low }, exp_ { exponent } {
        if (high_ == 0 && low_ == 0) sign_ = 0;
    }
    constexpr triple(std::int64_t coefficient, std::int32_t exponent = 0) noexcept : // NOLINT
        triple(coefficient < 0 ? -1 : (coefficient == 0 ? 0 : 1), 0, coefficient < 0 ? 0ULL - static_cast<std::uint64_t>(coefficient) : static_cast<std::uint64_t>(coefficient), exponent) {}
    explicit triple(::decimal::Decimal const& v) {
        unsigned __int128 c = 0;
        for (char ch : v.digits()) c = c * 10 + static_cast<unsigned>(ch - '0');
        high_ = static_cast<std::uint64_t>(c >> 64U);
        low_ = static_cast<std::uint64_t>(c);
        exp_ = static_cast<std::int32_t>(v.exponent());
        sign_ = c == 0 ? 0 : v.sign();
    }
    [[nodiscard]] explicit operator ::decimal::Decimal() const {
        unsigned __int128 c = (static_cast<unsigned __int128>(high_) << 64U) | low_;
        std::string d;
        do { d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; } while (c != 0);
        return ::decimal::Decimal { sign_ < 0 ? -1 : 1, std::move(d), exp_ };
    }
    [[nodiscard]] constexpr std::int32_t sign() const noexcept { return sign_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_high() const noexcept { return high_; }
    [[nodiscard]] constexpr std::uint64_t coefficient_low() const noexcept { return low_; }
    [[nodiscard]] constexpr std::int32_t exponent() const noexcept { return exp_; }
    friend constexpr bool operator==(triple a, triple b) noexcept { return a.sign_ == b.sign_ && a.high_ == b.high_ && a.low_ == b.low_ && a.exp_ == b.exp_; }
    friend constexpr bool operator!=(triple a, triple b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, triple v) { return out << static_cast<::decimal::Decimal>(v); }
private:
    std::int32_t sign_ { 0 };
    std::uint64_t high_ { 0 };
    std::uint64_t low_ { 0 };
    std::int32_t exp_ { 0 };
};

} // namespace takatori::decimal
