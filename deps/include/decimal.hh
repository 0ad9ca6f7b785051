#pragma once
// Stand-in for the subset of libmpdec++ (decimal.hh) this code base uses
#include <cmath>
#include <math.h>
#include <cstdint>
#include <climits>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string>
#include <algorithm>
#undef isnan
#undef isnormal
#undef issubnormal
#undef iszero

using mpd_ssize_t = std::int64_t;
#define MPD_MAX_EMAX 999999999999999999LL
#define MPD_MIN_EMIN (-999999999999999999LL)

namespace decimal {

enum : std::uint32_t { DecRounded = 1U << 0, DecInexact = 1U << 1, DecConversionSyntax = 1U << 2, DecInvalidOperation = 1U << 3 };

class DecimalException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class ValueError : public DecimalException { public: using DecimalException::DecimalException; };
class MallocError : public DecimalException { public: using DecimalException::DecimalException; };

class Context {
public:
    explicit Context(mpd_ssize_t prec = 38, mpd_ssize_t emax = MPD_MAX_EMAX, mpd_ssize_t emin = MPD_MIN_EMIN) : prec_ { prec }, emax_ { emax }, emin_ { emin } {}
    [[nodiscard]] std::uint32_t status() const noexcept { return status_; }
    void status(std::uint32_t s) noexcept { status_ = s; }
    void add_status(std::uint32_t s) noexcept { status_ |= s; }
    [[nodiscard]] mpd_ssize_t prec() const noexcept { return prec_; }
    [[nodiscard]] mpd_ssize_t emin() const noexcept { return emin_; }
private:
    mpd_ssize_t prec_, emax_, emin_;
    std::uint32_t status_ { 0 };
};

/// finite decimals as (sign, digit string, exponent)
class Decimal {
public:
    Decimal() = default;
    Decimal(std::int64_t v) { neg_ = v < 0; digits_ = std::to_string(neg_ ? 0ULL - static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v)); } // NOLINT
    Decimal(int v) : Decimal(static_cast<std::int64_t>(v)) {} // NOLINT
    Decimal(int sign, std::string digits, std::int64_t exp) : neg_ { sign < 0 }, digits_ { std::move(digits) }, exp_ { exp } { norm(); }
    explicit Decimal(std::string const& s) { parse(s); }
    explicit Decimal(char const* s) { parse(s); }
    Decimal(std::string const& s, Context& c) { parse(s); if (nan_) { c.add_status(DecConversionSyntax); return; } round(c); }
    Decimal(char const* s, Context& c) : Decimal(std::string(s), c) {}
    [[nodiscard]] mpd_ssize_t exponent() const { if (nan_) throw ValueError("not a number"); return exp_; }
    [[nodiscard]] bool iszero() const noexcept { return !nan_ && digits_ == "0"; }
    [[nodiscard]] bool isnan() const noexcept { return nan_; }
    [[nodiscard]] bool isnormal(Context const& c) const noexcept { return !nan_ && !iszero() && adjexp() >= c.emin(); }
    [[nodiscard]] bool issubnormal(Context const& c) const noexcept { return !nan_ && !iszero() && adjexp() < c.emin(); }
    [[nodiscard]] std::string number_class(Context const& c) const { if (nan_) return "NaN"; std::string s = neg_ ? "-" : "+"; if (iszero()) return s + "Zero"; return s + (isnormal(c) ? "Normal" : "Subnormal"); }
    [[nodiscard]] mpd_ssize_t adjexp() const noexcept { return exp_ + static_cast<mpd_ssize_t>(digits_.size()) - 1; }
    [[nodiscard]] Decimal coeff() const { Decimal r { *this }; r.neg_ = false; r.exp_ = 0; return r; }
    [[nodiscard]] Decimal minus() const { Decimal r { *this }; r.neg_ = !r.neg_ && !r.iszero(); return r; }
    [[nodiscard]] Decimal minus(Context&) const { return minus(); }
    [[nodiscard]] int sign() const noexcept { return neg_ ? -1 : +1; }
    [[nodiscard]] std::string const& digits() const noexcept { return digits_; }
    [[nodiscard]] bool isinteger() const noexcept {
        if (nan_) return false;
        if (exp_ >= 0 || iszero()) return true;
        auto n = static_cast<std::size_t>(-exp_);
        auto tz = digits_.size() - 1 - digits_.find_last_not_of('0');
        return tz >= n;
    }
    [[nodiscard]] std::int64_t i64() const { return to_int(INT64_MIN, INT64_MAX); }
    [[nodiscard]] std::int32_t i32() const { return static_cast<std::int32_t>(to_int(INT32_MIN, INT32_MAX)); }
    [[nodiscard]] std::string to_sci() const { if (nan_) return "NaN"; std::string s = neg_ ? "-" : ""; s += digits_; if (exp_ != 0) { s += "E"; s += std::to_string(exp_); } return s; }
    friend bool operator==(Decimal const& a, Decimal const& b) { return !a.nan_ && !b.nan_ && a.neg_ == b.neg_ && a.digits_ == b.digits_ && a.exp_ == b.exp_; }
    friend bool operator!=(Decimal const& a, Decimal const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& out, Decimal const& v) { return out << v.to_sci(); }
private:
    bool neg_ { false };
    bool nan_ { false };
    std::string digits_ { "0" };
    std::int64_t exp_ { 0 };
    void norm() { auto p = digits_.find_first_not_of('0'); if (p == std::string::npos) digits_ = "0"; else digits_.erase(0, p); }
    void parse(std::string const& s) {
        std::size_t i = 0;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg_ = s[i] == '-'; ++i; }
        std::string d {};
        std::int64_t e = 0;
        bool dot = false, any = false;
        for (; i < s.size(); ++i) {
            if (s[i] >= '0' && s[i] <= '9') { d += s[i]; any = true; if (dot) --e; }
            else if (s[i] == '.' && !dot) { dot = true; }
            else break;
        }
        if (any && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i;
            bool en = false;
            if (i < s.size() && (s[i] == '+' || s[i] == '-')) { en = s[i] == '-'; ++i; }
            std::int64_t v = 0;
            bool ed = false;
            for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { ed = true; if (v < 100000000000000000LL) v = v * 10 + (s[i] - '0'); }
            if (!ed) any = false;
            e += en ? -v : v;
        }
        if (!any || i != s.size()) { nan_ = true; digits_ = "0"; neg_ = false; return; }
        digits_ = d;
        exp_ = e;
        norm();
    }
    void round(Context& c) {
        if (nan_) return;
        auto p = static_cast<std::size_t>(c.prec());
        if (digits_.size() > p) {
            auto drop = digits_.size() - p;
            c.add_status(DecRounded);
            digits_.resize(p);
            exp_ += static_cast<std::int64_t>(drop);
        }
    }
    [[nodiscard]] std::int64_t to_int(std::int64_t lo, std::int64_t hi) const {
        if (!isinteger()) throw ValueError("not an integer");
        std::string d = digits_;
        if (iszero()) return 0;
        if (exp_ < 0) d.resize(d.size() - static_cast<std::size_t>(-exp_));
        else { if (exp_ > 40) throw ValueError("out of range"); d.append(static_cast<std::size_t>(exp_), '0'); }
        __int128 v = 0;
        for (char ch : d) { v = v * 10 + (ch - '0'); if (v > (static_cast<__int128>(1) << 70)) throw ValueError("out of range"); }
        if (neg_) v = -v;
        if (v < lo || v > hi) throw ValueError("out of range");
        return static_cast<std::int64_t>(v);
    }
};

} // namespace decimal
