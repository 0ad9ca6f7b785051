#pragma once
#include <cstdint>
#include <cstdio>
#include <ostream>
#include <string_view>
#include <vector>
#include "object_acceptor.h"
namespace takatori::serializer {
class json_printer : public object_acceptor {
public:
    explicit json_printer(std::ostream& out) noexcept : out_ { out } {}
    void boolean(bool v) override { sep(); out_ << (v ? "true" : "false"); }
    void integer(std::int64_t v) override { sep(); out_ << v; }
    void unsigned_integer(std::uint64_t v) override { sep(); out_ << v; }
    void float_number(float v) override { sep(); out_ << v; }
    void double_number(double v) override { sep(); out_ << v; }
    void string(std::string_view v) override { sep(); str(v); }
    void struct_begin() override { sep(); out_ << '{'; stack_.push_back({ 's', true }); }
    void struct_end() override { pop(); out_ << '}'; }
    void property_begin(std::string_view name) override { sep(); str(name); out_ << ": "; stack_.push_back({ 'p', true }); wrote_ = false; }
    void property_end() override { bool empty = !stack_.empty() && stack_.back().first; pop(); if (empty) out_ << "null"; }
    void array_begin() override { sep(); out_ << '['; stack_.push_back({ 'a', true }); }
    void array_end() override { pop(); out_ << ']'; }
    void pointer(void const* v) override { sep(); out_ << (v ? "\"#ptr\"" : "null"); }
private:
    struct frame { char kind; bool first; };
    std::ostream& out_;
    std::vector<frame> stack_ {};
    bool wrote_ {};
    void sep() {
        if (stack_.empty()) return;
        auto& f = stack_.back();
        if (!f.first && f.kind != 'p') out_ << ", ";
        f.first = false;
    }
    void pop() { if (!stack_.empty()) stack_.pop_back(); }
    void str(std::string_view v) {
        out_ << '"';
        for (char c : v) {
            if (c == '"' || c == '\\') { out_ << '\\' << c; }
            else if (static_cast<unsigned char>(c) < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); out_ << b; }
            else out_ << c;
        }
        out_ << '"';
    }
};
}
