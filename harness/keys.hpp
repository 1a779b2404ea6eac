// Cache keys: ordinary ones, and ones that are special to file systems or percent-encoding.
#ifndef KEYS_HPP
#define KEYS_HPP
#include "pbt.hpp"

inline std::string gen_key(pbt::test_case& c)
{
    switch (c.weighted({6, 4, 3, 2, 2})) {
        case 0: return std::string(1, static_cast<char>('a' + c.draw(3)));
        case 1:
            return c.one_of<std::string>({"", ".", "..", "...", "a/b", "a/../b", "../a", "/", "/a", "a/", "%", "%2e", "%2E%2E", "a%2Fb", "a%2fb", "A", "lock", ".lock", ".data", "a.lock", "a.data",
                "a ", " a", std::string("a\0b", 3), std::string("\0", 1), "\xc3\xa6", "{8c4e810f-3df3-4a00-8276-176fa3c9f003}", "con", "*", "a\nb", "~", "-", "a%00b", "b.data", "b.lock"});
        case 2: {
            std::string s;
            c.repeat(0, 4, 2, [&](int) { s += c.one_of<std::string>({".", "/", "..", "%", "a", "2E", "data", ".lock", ".data"}); });
            return s;
        }
        case 3: // long keys, which are the same for a long way
        {
            const auto n = static_cast<std::size_t>(c.one_of<int>({20, 32, 64, 120, 200}));
            return std::string(n - 1, 'k') + c.one_of<std::string>({"k", "kk", "l", "m", ""});
        }
        default: return c.bytes(20);
    }
}
#endif
