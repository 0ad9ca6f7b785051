#pragma once
#include <cstddef>
#include <ostream>
namespace takatori::document {
class position {
public:
    using size_type = std::size_t;
    constexpr position() = default;
    constexpr position(std::size_t line, std::size_t column) noexcept : line_ { line }, column_ { column } {}
    [[nodiscard]] constexpr std::size_t line() const noexcept { return line_; }
    [[nodiscard]] constexpr std::size_t column() const noexcept { return column_; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return line_ != 0; }
private:
    std::size_t line_ { 0 };
    std::size_t column_ { 0 };
};
inline std::ostream& operator<<(std::ostream& out, position p) { return out << p.line() << ":" << p.column(); }
}
