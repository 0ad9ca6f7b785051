// The C library as far as it depends on the locale of the process: a seam for the simulator.
// No other locale than "C" is installed, so that the functions themselves answer as under another one (letters as in
// Turkish and Latin-1, a decimal comma) if the run says so; otherwise as under the locale "C".
#include "clocale_sim.h"

#include <clocale>
#include <cwchar>
#include <string>

#include <stdlib.h>

namespace rt {
bool hostile_locale = false;
}

namespace {
bool between(int c, int a, int b) { return c >= a && c <= b; }
int byte(int c) { return c < 0 && c >= -128 ? c + 256 : c; }
bool high_upper(int c) { return rt::hostile_locale && between(byte(c), 0xC0, 0xDE) && byte(c) != 0xD7; }
bool high_lower(int c) { return rt::hostile_locale && between(byte(c), 0xDF, 0xFF) && byte(c) != 0xF7; }
bool upper(int c) { return between(c, 'A', 'Z') || high_upper(c); }
bool lower(int c) { return between(c, 'a', 'z') || high_lower(c); }
bool digit(int c) { return between(c, '0', '9'); }
bool space(int c) { return c == ' ' || between(c, 9, 13) || (rt::hostile_locale && byte(c) == 0xA0); }
bool punct(int c) { return between(c, '!', '/') || between(c, ':', '@') || between(c, '[', '`') || between(c, '{', '~') || (rt::hostile_locale && between(byte(c), 0xA1, 0xBF)); }
locale_t plain() { static locale_t l = newlocale(LC_ALL_MASK, "C", nullptr); return l; }
template<class T, class F>
T number(char const* s, char** end, F&& f) {
    if (!rt::hostile_locale) return f(s, end);
    // the decimal point is a comma
    char buffer[512];
    std::size_t n = 0;
    for (; s[n] != 0 && n < sizeof buffer - 1; ++n) { if (s[n] == '.') break; buffer[n] = s[n] == ',' ? '.' : s[n]; }
    buffer[n] = 0;
    char* e = buffer;
    T r = f(buffer, &e);
    if (end != nullptr) *end = const_cast<char*>(s) + (e - buffer);
    return r;
}
} // namespace

extern "C" {
int tolower(int c) noexcept {
    if (rt::hostile_locale && c == 'I') return c;
    if (between(c, 'A', 'Z')) return c + 32;
    return high_upper(c) ? c + 32 : c;
}
int toupper(int c) noexcept {
    if (rt::hostile_locale && c == 'i') return c;
    if (between(c, 'a', 'z')) return c - 32;
    return high_lower(c) && byte(c) != 0xDF && byte(c) != 0xFF ? c - 32 : c;
}
int isupper(int c) noexcept { return upper(c) ? 1 : 0; }
int islower(int c) noexcept { return lower(c) ? 1 : 0; }
int isalpha(int c) noexcept { return upper(c) || lower(c) ? 1 : 0; }
int isalnum(int c) noexcept { return upper(c) || lower(c) || digit(c) ? 1 : 0; }
int isspace(int c) noexcept { return space(c) ? 1 : 0; }
int isblank(int c) noexcept { return c == ' ' || c == '\t' || (rt::hostile_locale && byte(c) == 0xA0) ? 1 : 0; }
int ispunct(int c) noexcept { return punct(c) ? 1 : 0; }
int isgraph(int c) noexcept { return upper(c) || lower(c) || digit(c) || punct(c) ? 1 : 0; }
int isprint(int c) noexcept { return c == ' ' || upper(c) || lower(c) || digit(c) || punct(c) ? 1 : 0; }
double strtod(char const* s, char** end) noexcept { return number<double>(s, end, [](char const* a, char** b) { return strtod_l(a, b, plain()); }); }
float strtof(char const* s, char** end) noexcept { return number<float>(s, end, [](char const* a, char** b) { return strtof_l(a, b, plain()); }); }
long double strtold(char const* s, char** end) noexcept { return number<long double>(s, end, [](char const* a, char** b) { return strtold_l(a, b, plain()); }); }
double atof(char const* s) noexcept { return strtod(s, nullptr); }
}
