// Letters and digits of ASCII: the simulator itself does not depend on the locale which it simulates.
#pragma once
namespace ascii {
constexpr bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
constexpr bool alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
constexpr bool alnum(unsigned char c) { return digit(c) || alpha(c); }
constexpr bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
constexpr int lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
constexpr int upper(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
} // namespace ascii
