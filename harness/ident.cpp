// Textual identifiers: every value formats and parses back, every text is parsed as specified.
#define FMT_HEADER_ONLY 1
#include "symx.h"
#include "svs/lib/datatype.h"
#include "svs/lib/uuid.h"
#include "svs/lib/version.h"
#include <string>
#include <vector>
#ifndef VLEN
#define VLEN 10
#endif
#ifndef NUM
#define NUM 120
#endif
using namespace svs;
using lib::UUID;
using lib::Version;
template <typename F> static bool refused(F&& f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static int hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool hyphen_at(size_t i) { return i == 8 || i == 13 || i == 18 || i == 23; }

ENTRY(hex_digits) {
    uint8_t b = symx::any<uint8_t>("byte");
    auto [hi, lo] = lib::byte_to_ascii_hex(b);
    CHECK_(hex(hi) == (b >> 4) && hex(lo) == (b & 15), "a byte is formatted as other digits");
    CHECK_(lib::ascii_octet_to_byte(hi, lo) == b, "a formatted byte parses as another one");
    char c = symx::any<char>("char");
    int want = hex(c), got = -1;
    try { got = lib::ascii_hex_to_byte(c); } catch (const std::exception&) {}
    CHECK_(got == want, "a hexadecimal digit is parsed wrongly");
    symx_reach("end");
}
// any identifier: two bytes arbitrary at any two places, the others arbitrary constants
ENTRY(uuid_roundtrip) {
    std::array<uint8_t, 16> raw;
    for (int i = 0; i < 16; ++i) raw[i] = uint8_t(i * 37 + 9);
    unsigned a = symx::pick(0, 15, "place"), b = symx::pick(0, 15, "place");
    raw[a] = symx::any<uint8_t>("byte");
    raw[b] = symx::any<uint8_t>("byte");
    UUID u(raw);
    std::string s = u.str();
    CHECK_(s.size() == 36, "an identifier has a text of the wrong length");
    bool shape = true, text = true;
    for (size_t i = 0; i < 36; ++i) shape &= (s[i] == '-') == hyphen_at(i);
    CHECK_(shape, "an identifier's text has its hyphens in the wrong places");
    for (size_t i = 0, d = 0; i < 36; ++i) if (!hyphen_at(i)) { uint8_t v = raw[15 - d / 2]; text &= hex(s[i]) == (d % 2 ? v & 15 : v >> 4); ++d; }
    CHECK_(text, "an identifier's text has other digits than its value");
    UUID p{std::string_view(s)};
    CHECK_(p == u && p.raw() == raw, "an identifier's text parses as another identifier");
    symx_reach("end");
}
ENTRY(uuid_equal) {
    auto a = symx::any<std::array<uint8_t, 16>>("a"), b = symx::any<std::array<uint8_t, 16>>("b");
    bool same = true;
    for (int i = 0; i < 16; ++i) same = same & (a[i] == b[i]);
    CHECK_((UUID(a) == UUID(b)) == same, "identifiers are compared wrongly");
    symx_reach("end");
}
// an identifier's text with two arbitrary neighboring characters, in either case
ENTRY(uuid_malformed) {
    char* t = new char[36];
    for (size_t i = 0; i < 36; ++i) t[i] = hyphen_at(i) ? '-' : "0123456789abcdefABCDEF"[i % 22];
    unsigned at = symx::pick(0, 34, "place");
    t[at] = symx::any<char>("char");
    t[at + 1] = symx::any<char>("char");
    bool ok = true;
    for (unsigned i = at; i < at + 2; ++i) ok &= hyphen_at(i) ? t[i] == '-' : hex(t[i]) >= 0;
    std::array<uint8_t, 16> got{};
    bool r = refused([&] { got = UUID(std::string_view(t, 36)).raw(); });
    CHECK_(r == !ok, "a well-formed identifier is refused, or a malformed one is accepted");
    if (!r) {
        bool good = true;
        for (size_t i = 0, d = 0; i < 36; ++i) if (!hyphen_at(i)) { uint8_t v = got[15 - d / 2]; good &= hex(t[i]) == (d % 2 ? v & 15 : v >> 4); ++d; }
        CHECK_(good, "an identifier is parsed as another value");
    }
    delete[] t;
    symx_reach(r ? "refused" : "parsed");
}
ENTRY(uuid_length) {
    unsigned n = symx::pick(0, 40, "length");
    if (n == 36) return;
    char* t = new char[n + 1];
    for (unsigned i = 0; i < n; ++i) t[i] = symx::any<char>("char");
    CHECK_(refused([&] { UUID u{std::string_view(t, n)}; }), "a text of the wrong length is accepted as an identifier");
    delete[] t;
    symx_reach("end");
}
static bool number(const char* p, size_t n, size_t& v) {
    v = 0;
    if (n == 0) return false;
    for (size_t i = 0; i < n; ++i) { if (p[i] < '0' || p[i] > '9') return false; v = v * 10 + size_t(p[i] - '0'); }
    return true;
}
// any text
ENTRY(version_text) {
    unsigned n = symx::pick(0, VLEN, "length");
    char* t = new char[n + 1];
    for (unsigned i = 0; i < n; ++i) t[i] = symx::any<char>("char");
    size_t ma = 0, mi = 0, pa = 0;
    bool ok = n > 0 && t[0] == 'v';
    if (ok) {
        size_t d1 = 1;
        while (d1 < n && t[d1] != '.') ++d1;
        size_t d2 = d1 + 1;
        while (d2 < n && t[d2] != '.') ++d2;
        ok = d1 < n && d2 < n && number(t + 1, d1 - 1, ma) && number(t + d1 + 1, d2 - d1 - 1, mi) && number(t + d2 + 1, n - d2 - 1, pa);
    }
    Version v(1, 1, 1);
    bool r = refused([&] { v = Version(std::string_view(t, n)); });
    CHECK_(r == !ok, "a well-formed version is refused, or a malformed one is accepted");
    if (!r && ok) CHECK_(v.major == ma && v.minor == mi && v.patch == pa, "a version is parsed as another one");
    delete[] t;
    symx_reach(r ? "refused" : "parsed");
}
// numbers that do not fit
ENTRY(version_huge) {
    std::string big[] = {"18446744073709551615", "18446744073709551616", "99999999999999999999999", "0", "007"};
    unsigned w = symx::pick(0, 4, "which"), at = symx::pick(0, 2, "place");
    std::string t = "v";
    for (unsigned i = 0; i < 3; ++i) { t += i == at ? big[w] : "3"; if (i < 2) t += "."; }
    Version v(1, 1, 1);
    bool r = refused([&] { v = Version(t); });
    CHECK_(r == (w == 1 || w == 2), "a version number that does not fit is accepted, or one that does is refused");
    size_t want[] = {~size_t(0), 0, 0, 0, 7};
    if (!r) CHECK_((at == 0 ? v.major : at == 1 ? v.minor : v.patch) == want[w], "a version is parsed as another one");
    symx_reach("end");
}
static std::string text(const Version& v) { return v.str(); }
ENTRY(version_roundtrip) {
    size_t x = symx::in<size_t>(0, NUM, "number");
    size_t c[3] = {1, 20, 300};
    if (symx::pick(0, 1, "huge")) c[0] = ~size_t(0);
    unsigned at = symx::pick(0, 2, "place");
    c[at] = x;
    Version v(c[0], c[1], c[2]);
    std::string s = text(v);
    Version p(s);
    CHECK_(p == v && p.major == c[0] && p.minor == c[1] && p.patch == c[2], "a version's text parses as another version");
    symx_reach("end");
}
ENTRY(version_order) {
    size_t c[6];
    for (auto& x : c) x = symx::any<size_t>("number");
    Version a(c[0], c[1], c[2]), b(c[3], c[4], c[5]);
    bool lt = c[0] != c[3] ? c[0] < c[3] : c[1] != c[4] ? c[1] < c[4] : c[2] < c[5];
    bool eq = c[0] == c[3] && c[1] == c[4] && c[2] == c[5];
    CHECK_((a < b) == lt && (a == b) == eq && (a > b) == (!lt && !eq) && (a <= b) == (lt || eq) && (a >= b) == !lt && (a != b) == !eq, "versions are ordered wrongly");
    symx_reach("end");
}
constexpr DataType types[] = {DataType::uint8, DataType::uint16, DataType::uint32, DataType::uint64, DataType::int8, DataType::int16, DataType::int32, DataType::int64, DataType::float16, DataType::float32, DataType::float64, DataType::byte, DataType::undef};
constexpr const char* names[] = {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float16", "float32", "float64", "byte", "undef"};
constexpr size_t sizes[] = {1, 2, 4, 8, 1, 2, 4, 8, 2, 4, 8, 1, 0};
template <typename T> void cpp(DataType t) {
    CHECK_(datatype_v<T> == t && sizeof(T) == element_size(t), "an element type has another size or name");
    T x{};
    const T* p = &x;
    ConstErasedPointer e(p);
    CHECK_(e.type() == t && e.get<T>() == p, "an erased pointer loses its type");
    using Other = std::conditional_t<std::is_same_v<T, float>, double, float>;
    CHECK_(refused([&] { e.get<Other>(); }), "an erased pointer is read as another type");
}
ENTRY(datatype_names) {
    unsigned i = symx::pick(0, 12, "type");
    CHECK_(name(types[i]) == names[i], "an element type has another name");
    CHECK_(parse_datatype(name(types[i])) == types[i], "an element type's name parses as another one");
    CHECK_(element_size(types[i]) == sizes[i], "an element type has another size");
    int bad = symx::any<int>("value");
    symx_assume(bad < 0 || bad > 12);
    CHECK_(refused([&] { element_size(DataType(bad)); }) && refused([&] { name(DataType(bad)); }), "a value that is no element type has a size or name");
    cpp<uint8_t>(DataType::uint8); cpp<uint16_t>(DataType::uint16); cpp<uint32_t>(DataType::uint32); cpp<uint64_t>(DataType::uint64);
    cpp<int8_t>(DataType::int8); cpp<int16_t>(DataType::int16); cpp<int32_t>(DataType::int32); cpp<int64_t>(DataType::int64);
    cpp<Float16>(DataType::float16); cpp<float>(DataType::float32); cpp<double>(DataType::float64);
    symx_reach("end");
}
// any text is parsed as the type of exactly that name
ENTRY(datatype_text) {
    unsigned n = symx::pick(0, 8, "length");
    char* t = new char[n + 1];
    for (unsigned i = 0; i < n; ++i) t[i] = symx::any<char>("char");
    DataType got = parse_datatype(std::string_view(t, n));
    DataType want = DataType::undef;
    for (unsigned i = 0; i < 12; ++i) {
        std::string_view s = names[i];
        bool same = s.size() == n;
        for (unsigned j = 0; same && j < n; ++j) same = t[j] == s[j];
        if (same) want = types[i];
    }
    CHECK_(got == want, "a text is parsed as an element type it does not name");
    delete[] t;
    symx_reach(want == DataType::undef ? "unknown" : "known");
}
