#pragma once
#include <ostream>
#include <vector>
#include "object_acceptor.h"
namespace takatori::serializer {
class json_printer : public object_acceptor {
public:
    explicit json_printer(std::ostream& out) : out_ { out } {}
    void string(std::string_view v) override {
        pre(); out_ << '"';
        for (char c : v) { if (c == '"' || c == '\\') out_ << '\\'; out_ << c; }
        out_ << '"'; post();
    }
    void integer(std::int64_t v) override { pre(); out_ << v; post(); }
    void unsigned_integer(std::uint64_t v) override { pre(); out_ << v; post(); }
    void real(double v) override { pre(); out_ << v; post(); }
    void boolean(bool v) override { pre(); out_ << (v ? "true" : "false"); post(); }
    void pointer(void const* v) override { pre(); out_ << v; post(); }
    void struct_begin() override { pre(); out_ << '{'; st_.push_back({'{', 0}); }
    void struct_end() override { out_ << '}'; st_.pop_back(); post(); }
    void property_begin(std::string_view n) override {
        if (!st_.empty() && st_.back().n++ > 0) out_ << ',';
        out_ << '"' << n << "\":"; st_.push_back({':', 0});
    }
    void property_end() override { if (st_.back().n == 0) out_ << "null"; st_.pop_back(); }
    void array_begin() override { pre(); out_ << '['; st_.push_back({'[', 0}); }
    void array_end() override { out_ << ']'; st_.pop_back(); post(); }
private:
    struct entry { char k; int n; };
    std::ostream& out_;
    std::vector<entry> st_ {};
    void pre() { if (!st_.empty() && st_.back().k == '[' && st_.back().n > 0) out_ << ','; }
    void post() { if (!st_.empty()) ++st_.back().n; }
};
}
