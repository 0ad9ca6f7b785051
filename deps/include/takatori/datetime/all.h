#pragma once
// Stand-in for takatori/datetime/*.h
#include <takatori/util/std_all.h>
#include <chrono>

namespace takatori::datetime {

class date {
public:
    constexpr date() = default;
    constexpr explicit date(std::int64_t days_since_epoch) noexcept : days_ { days_since_epoch } {}
    constexpr date(std::int32_t y, std::uint32_t m, std::uint32_t d) noexcept : days_ { civil(y, m, d) } {}
    [[nodiscard]] constexpr std::int64_t days_since_epoch() const noexcept { return days_; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.days_ == b.days_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.days_ != b.days_; }
    friend std::ostream& operator<<(std::ostream& o, date v) { return o << v.days_; }
private:
    std::int64_t days_ { 0 };
    static constexpr std::int64_t civil(std::int64_t y, std::int64_t m, std::int64_t d) noexcept {
        y -= m <= 2 ? 1 : 0;
        std::int64_t era = (y >= 0 ? y : y - 399) / 400;
        std::int64_t yoe = y - era * 400;
        std::int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
        std::int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + doe - 719468;
    }
};

class time_of_day {
public:
    using time_unit = std::chrono::nanoseconds;
    constexpr time_of_day() = default;
    constexpr explicit time_of_day(time_unit v) noexcept : v_ { v } {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit sub = time_unit { 0 }) noexcept :
        v_ { std::chrono::duration_cast<time_unit>(std::chrono::seconds { h * 3600LL + m * 60LL + s }) + sub } {}
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return v_; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.v_ == b.v_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.v_ != b.v_; }
    friend std::ostream& operator<<(std::ostream& o, time_of_day v) { return o << v.v_.count(); }
private:
    time_unit v_ { 0 };
};

class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t>;
    using difference_type = std::chrono::nanoseconds;
    constexpr time_point() = default;
    constexpr time_point(date d, time_of_day t) noexcept :
        sec_ { d.days_since_epoch() * 86400 + t.time_since_epoch().count() / 1000000000 }, sub_ { t.time_since_epoch().count() % 1000000000 } {}
    [[nodiscard]] constexpr std::int64_t seconds_since_epoch() const noexcept { return sec_; }
    [[nodiscard]] constexpr std::int64_t subsecond() const noexcept { return sub_; }
    template<class R, class P> time_point& operator+=(std::chrono::duration<R, P> d) noexcept {
        sec_ += std::chrono::duration_cast<std::chrono::seconds>(d).count();
        return *this;
    }
    template<class R, class P> time_point& operator-=(std::chrono::duration<R, P> d) noexcept {
        sec_ -= std::chrono::duration_cast<std::chrono::seconds>(d).count();
        return *this;
    }
    friend constexpr bool operator==(time_point a, time_point b) noexcept { return a.sec_ == b.sec_ && a.sub_ == b.sub_; }
    friend constexpr bool operator!=(time_point a, time_point b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, time_point v) { return o << v.sec_ << "." << v.sub_; }
private:
    std::int64_t sec_ { 0 };
    std::int64_t sub_ { 0 };
};

struct date_info { std::uint32_t year {}; std::uint32_t month {}; std::uint32_t day {}; };
struct time_info { std::uint32_t hour {}; std::uint32_t minute {}; std::uint32_t second {}; std::chrono::nanoseconds subsecond {}; };
struct zone_offset_info { bool plus {}; std::uint32_t hour {}; std::uint32_t minute {}; };
struct datetime_info { date_info date {}; time_info time {}; std::optional<zone_offset_info> offset {}; };

template<class T>
class conversion_result {
public:
    conversion_result(T v) : v_ { std::move(v) } {} // NOLINT
    conversion_result(std::string e) : e_ { std::move(e) } {} // NOLINT
    [[nodiscard]] bool has_value() const noexcept { return v_.has_value(); }
    [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
    [[nodiscard]] bool is_error() const noexcept { return !has_value(); }
    [[nodiscard]] T& value() { return v_.value(); }
    [[nodiscard]] T const& value() const { return v_.value(); }
    [[nodiscard]] T const& operator*() const { return v_.value(); }
    [[nodiscard]] T const* operator->() const { return std::addressof(v_.value()); }
    [[nodiscard]] std::string const& error() const noexcept { return e_; }
private:
    std::optional<T> v_ {};
    std::string e_ {};
};

namespace impl {
struct cursor {
    std::string_view s;
    std::size_t i { 0 };
    [[nodiscard]] bool end() const noexcept { return i >= s.size(); }
    bool ch(char c) noexcept { if (!end() && s[i] == c) { ++i; return true; } return false; }
    void ws() noexcept { while (!end() && s[i] == ' ') ++i; }
    bool num(std::uint32_t& out, std::size_t min, std::size_t max) noexcept {
        std::size_t n = 0; std::uint32_t v = 0;
        while (!end() && n < max && s[i] >= '0' && s[i] <= '9') { v = v * 10 + static_cast<std::uint32_t>(s[i] - '0'); ++i; ++n; }
        out = v;
        return n >= min;
    }
    bool date(date_info& d) noexcept {
        return num(d.year, 1, 6) && ch('-') && num(d.month, 1, 2) && ch('-') && num(d.day, 1, 2)
            && d.month >= 1 && d.month <= 12 && d.day >= 1 && d.day <= 31;
    }
    bool time(time_info& t) noexcept {
        if (!(num(t.hour, 1, 2) && ch(':') && num(t.minute, 1, 2) && ch(':') && num(t.second, 1, 2))) return false;
        if (t.hour >= 24 || t.minute >= 60 || t.second >= 60) return false;
        if (ch('.')) {
            std::int64_t v = 0; int n = 0;
            while (!end() && s[i] >= '0' && s[i] <= '9') { if (n < 9) { v = v * 10 + (s[i] - '0'); ++n; } ++i; }
            if (n == 0) return false;
            while (n++ < 9) v *= 10;
            t.subsecond = std::chrono::nanoseconds { v };
        }
        return true;
    }
    bool zone(std::optional<zone_offset_info>& z) noexcept {
        if (end()) return true;
        if (ch('Z') || ch('z')) { z = zone_offset_info { true, 0, 0 }; return true; }
        bool plus = true;
        if (ch('-')) plus = false; else if (!ch('+')) return false;
        zone_offset_info r { plus, 0, 0 };
        if (!num(r.hour, 1, 2)) return false;
        if (ch(':')) { if (!num(r.minute, 2, 2)) return false; }
        else if (!end() && !num(r.minute, 2, 2)) return false;
        z = r;
        return true;
    }
};
} // namespace impl

inline conversion_result<date_info> parse_date(std::string_view s) {
    impl::cursor c { s };
    date_info r {};
    c.ws();
    if (!c.date(r)) return std::string { "invalid date" };
    c.ws();
    if (!c.end()) return std::string { "trailing characters" };
    return r;
}
inline conversion_result<time_info> parse_time(std::string_view s) {
    impl::cursor c { s };
    time_info r {};
    c.ws();
    if (!c.time(r)) return std::string { "invalid time" };
    c.ws();
    if (!c.end()) return std::string { "trailing characters" };
    return r;
}
inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    impl::cursor c { s };
    datetime_info r {};
    c.ws();
    if (!c.date(r.date)) return std::string { "invalid date" };
    if (!c.ch('T')) c.ws();
    if (!c.time(r.time)) return std::string { "invalid time" };
    c.ws();
    if (!c.zone(r.offset)) return std::string { "invalid zone offset" };
    c.ws();
    if (!c.end()) return std::string { "trailing characters" };
    return r;
}

} // namespace takatori::datetime
