// Shared by C05 and C06: every way of turning an object into text.
#ifndef FMTMON_HPP
#define FMTMON_HPP
#include "lib.hpp"
#include <sstream>
namespace fmon {
using namespace L;
#ifndef IPADDRESS_NO_OVERLOAD_STD
#define HAS_STD 1
#else
#define HAS_STD 0
#endif
static const char* fname(ref::Fmt f) { return f == ref::FULL ? "full" : f == ref::COMPACT ? "compact" : "compressed"; }

template <class X> std::string text_of(const X& x, ref::Fmt f, char) { return x.to_string(fmt(f)); }
template <class X> std::wstring text_of(const X& x, ref::Fmt f, wchar_t) { return x.to_wstring(fmt(f)); }
template <class X> std::u16string text_of(const X& x, ref::Fmt f, char16_t) { return x.to_u16string(fmt(f)); }
template <class X> std::u32string text_of(const X& x, ref::Fmt f, char32_t) { return x.to_u32string(fmt(f)); }
#if HAS_U8
template <class X> std::u8string text_of(const X& x, ref::Fmt f, char8_t) { return x.to_u8string(fmt(f)); }
#endif
#if HAS_STD
template <class T, class X> std::basic_string<T> streamed(const X& x, ref::Fmt f, bool dflt = false) {
    std::basic_ostringstream<T> os;
    if (dflt) os << x;
    else if (f == ref::FULL) os << ip::full << x;
    else if (f == ref::COMPACT) os << ip::compact << x;
    else os << ip::compressed << x;
    return os.str();
}
#endif
// does any spelling of the text of x differ from want? (reports under key)
template <class X> void all_spellings(const char* key, const X& x, ref::Fmt f, const std::string& want, bool wide, bool streams) {
    std::string k(key);
    std::string s = x.to_string(fmt(f));
    CHECK(s == want, k + "-to_string", fname(f), ": got ", s, " expected ", want);
    if (wide) {
        CHECK(narrow(x.to_wstring(fmt(f))) == want, k + "-to_wstring", fname(f), ": got ", narrow(x.to_wstring(fmt(f))), " expected ", want);
        CHECK(narrow(x.to_u16string(fmt(f))) == want, k + "-to_u16string", fname(f), ": got ", narrow(x.to_u16string(fmt(f))), " expected ", want);
        CHECK(narrow(x.to_u32string(fmt(f))) == want, k + "-to_u32string", fname(f), ": got ", narrow(x.to_u32string(fmt(f))), " expected ", want);
#if HAS_U8
        CHECK(narrow(x.to_u8string(fmt(f))) == want, k + "-to_u8string", fname(f), ": got ", narrow(x.to_u8string(fmt(f))), " expected ", want);
#endif
        if (f == ref::COMPRESSED) {
            CHECK(x.to_string() == want, k + "-to_string-default", "got ", x.to_string(), " expected ", want);
            CHECK(narrow(x.to_wstring()) == want, k + "-to_wstring-default", "got ", narrow(x.to_wstring()), " expected ", want);
            CHECK(std::string(x) == want, k + "-conversion", "got ", std::string(x), " expected ", want);
            CHECK(narrow(std::wstring(x)) == want, k + "-conversion-wide", "got ", narrow(std::wstring(x)), " expected ", want);
            CHECK(narrow(std::u16string(x)) == want, k + "-conversion-u16", "got ", narrow(std::u16string(x)), " expected ", want);
            CHECK(narrow(std::u32string(x)) == want, k + "-conversion-u32", "got ", narrow(std::u32string(x)), " expected ", want);
#if HAS_STD
            CHECK(std::to_string(x) == want, k + "-std-to_string", "got ", std::to_string(x), " expected ", want);
            CHECK(narrow(std::to_wstring(x)) == want, k + "-std-to_wstring", "got ", narrow(std::to_wstring(x)), " expected ", want);
#endif
        }
    }
#if HAS_STD
    if (streams) {
        CHECK((streamed<char>(x, f) == want), k + "-stream", fname(f), ": got ", streamed<char>(x, f), " expected ", want);
        CHECK((narrow(streamed<wchar_t>(x, f)) == want), k + "-wstream", fname(f), ": got ", narrow(streamed<wchar_t>(x, f)), " expected ", want);
        if (f == ref::COMPRESSED) CHECK((streamed<char>(x, f, true) == want), k + "-stream-default", "got ", streamed<char>(x, f, true), " expected ", want);
    }
#endif
}
} // namespace fmon
#endif
