#pragma once
// Stand-in for takatori/document/region.h
#include <takatori/util/std_all.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/document/document.h>
#include <takatori/document/position.h>

namespace takatori::document {

class region {
public:
    using position_type = position;
    constexpr region() = default;
    /// same contract as the real one: the range must lie in the document (positions are resolved eagerly)
    region(document const& doc, std::size_t begin, std::size_t end) :
        doc_ { std::addressof(doc) }, begin_ { begin }, end_ { end } {
        doc.resolve(begin);
        doc.resolve(end);
    }
    [[nodiscard]] document const* source() const noexcept { return doc_; }
    [[nodiscard]] std::size_t begin() const noexcept { return begin_; }
    [[nodiscard]] std::size_t end() const noexcept { return end_; }
    [[nodiscard]] position first_position() const { return doc_ ? doc_->resolve(begin_) : position {}; }
    [[nodiscard]] position last_position() const { return doc_ ? doc_->resolve(end_) : position {}; }
    [[nodiscard]] bool is_valid() const noexcept { return doc_ != nullptr; }
    [[nodiscard]] explicit operator bool() const noexcept { return is_valid(); }
    friend bool operator==(region const& a, region const& b) noexcept { return a.doc_ == b.doc_ && a.begin_ == b.begin_ && a.end_ == b.end_; }
    friend bool operator!=(region const& a, region const& b) noexcept { return !(a == b); }
private:
    document const* doc_ { nullptr };
    std::size_t begin_ { 0 };
    std::size_t end_ { 0 };
};
inline std::ostream& operator<<(std::ostream& out, region const& r) {
    if (!r) return out << "(unknown)";
    return out << r.source()->location() << ":" << r.first_position() << "-" << r.last_position();
}

} // namespace takatori::document
