// The circumstances an operation runs in: what memory held before, thread, locale, stack contents, exceptions under way.
#pragma once
#include <cerrno>
#include <clocale>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <locale>
#include <string>
#include <thread>
namespace world {
extern thread_local int fill; // -1: off; 0..255: the byte given out and freed memory is filled with; 256 and up: the start of a running pattern
void paint(uint32_t v);       // the stack below the caller
struct Circumstances {
    uint32_t fill = 0;        // 0..255 a byte, above that a running pattern
    bool thread = false, locale = false, unwinding = false;
    size_t depth = 0;         // bytes of stack above the operation
    std::string text() const { return (fill < 256 ? "memory filled with " + std::to_string(fill) : "memory filled with a pattern") + (thread ? ", in another thread" : "") + (locale ? ", with another locale" : "") + (unwinding ? ", while an exception is under way" : "") + ", " + std::to_string(depth) + " bytes down the stack"; }
};
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
// Runs f, whose results must be plain bytes or text, in these circumstances.
void run(const Circumstances& c, const std::function<void()>& f);
}
