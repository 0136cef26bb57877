#pragma once
// Values as texts that tell them apart exactly, and back
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>

#define NUMERIC_TYPES(X)                                                                                               \
    X("i8", std::int8_t) X("u8", std::uint8_t) X("i16", std::int16_t) X("u16", std::uint16_t) X("i32", std::int32_t)   \
    X("u32", std::uint32_t) X("i64", std::int64_t) X("u64", std::uint64_t) X("f32", float) X("f64", double)

// min, max, lowest, and numbers
template<typename T>
T parse_value(std::string const& s)
{
    using L = std::numeric_limits<T>;
    if (s == "max")
        return L::max();
    if (s == "min")
        return L::lowest();
    if constexpr (std::is_floating_point_v<T>)
    {
        if (s == "tiny")
            return L::denorm_min();
        if (s == "inf")
            return L::infinity();
        if (s == "-inf")
            return -L::infinity();
        if (s == "nan")
            return L::quiet_NaN();
        if (s == "-0")
            return -T(0);
        if (s == "eps")
            return T(1) + L::epsilon();
    }
    else if (s == "half")
        return static_cast<T>(L::max() / 2 + 1);
    T v{};
    auto r = std::from_chars(s.data(), s.data() + s.size(), v);
    if (r.ptr != s.data() + s.size())
        throw std::logic_error("value " + s);
    return v;
}

template<typename T>
std::string name_value(T v)
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>)
    {
        if (std::isnan(v))
            return "nan";
        if (std::isinf(v))
            return v > 0 ? "inf" : "-inf";
        if (v == 0 && std::signbit(v))
            return "-0";
        if (v == L::denorm_min())
            return "tiny";
        if (v == T(1) + L::epsilon())
            return "eps";
    }
    if (v == L::max())
        return "max";
    if (v == L::lowest() && v != 0)
        return "min";
    if constexpr (!std::is_floating_point_v<T>)
        if (v == static_cast<T>(L::max() / 2 + 1))
            return "half";
    char buf[64];
    auto r = std::to_chars(buf, buf + 64, v);
    return {buf, r.ptr};
}

// Texts are sequences of pieces
inline std::vector<std::pair<std::string, std::string>> const& pieces()
{
    static std::vector<std::pair<std::string, std::string>> const p{
        {"a", "a"}, {"b", "b"}, {"sp", " "}, {"nl", "\n"}, {"e", "\xc3\xa9"}, {"zh", "\xe4\xb8\xad"}, {"emo", "\xf0\x9f\x98\x80"},
        {"pct", "%"}, {"sl", "/"}, {"q", "\""}, {"long", std::string(100, 'L')}, {"huge", std::string(4000, 'H')}};
    return p;
}

template<typename J>
std::string text_of(J const& seq)
{
    std::string r;
    for (auto const& x : seq)
    {
        bool found = false;
        for (auto const& p : pieces())
            if (p.first == x.template get<std::string>())
                r += p.second, found = true;
        if (!found)
            throw std::logic_error("piece " + x.template get<std::string>());
    }
    return r;
}

inline std::vector<std::string> pieces_of(std::string const& s)
{
    std::vector<std::string> r;
    for (std::size_t i = 0; i < s.size();)
    {
        bool found = false;
        for (auto const& p : pieces())
            if (s.compare(i, p.second.size(), p.second) == 0)
            {
                r.push_back(p.first);
                i += p.second.size();
                found = true;
                break;
            }
        if (!found)
        {
            char buf[8];
            snprintf(buf, sizeof buf, "?%02x", static_cast<unsigned char>(s[i]));
            r.emplace_back(buf);
            ++i;
        }
    }
    return r;
}
