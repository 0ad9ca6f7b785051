#pragma once
#include <string>
#include <stdexcept>
#include "document.h"
namespace takatori::document {
class basic_document : public document {
public:
    explicit basic_document(std::string location, std::string contents) noexcept :
        location_ { std::move(location) }, contents_ { std::move(contents) } {}
    [[nodiscard]] std::string_view location() const noexcept override { return location_; }
    [[nodiscard]] std::string_view contents(std::size_t offset, std::size_t size) const override {
        if (offset > contents_.size()) throw std::out_of_range("invalid document offset");
        return std::string_view { contents_ }.substr(offset, size);
    }
    [[nodiscard]] std::size_t size() const noexcept override { return contents_.size(); }
    [[nodiscard]] position resolve(std::size_t offset) const override {
        std::size_t line = 1, col = 1;
        for (std::size_t i = 0; i < offset && i < contents_.size(); ++i) { if (contents_[i] == '\n') { ++line; col = 1; } else { ++col; } }
        return { line, col };
    }
private:
    std::string location_;
    std::string contents_;
};
}
