#pragma once
#include <cstddef>
#include <string_view>
#include "position.h"
namespace takatori::document {
/// abstract source document
class document {
public:
    document() = default;
    virtual ~document() = default;
    document(document const&) = delete;
    document& operator=(document const&) = delete;
    document(document&&) = delete;
    document& operator=(document&&) = delete;
    [[nodiscard]] virtual std::string_view location() const noexcept = 0;
    [[nodiscard]] virtual std::string_view contents(std::size_t offset, std::size_t size) const = 0;
    [[nodiscard]] virtual std::size_t size() const noexcept = 0;
    [[nodiscard]] virtual position resolve(std::size_t offset) const = 0;
};
}
