// ZIP files with arbitrary contents.
#ifndef ZIPFILE_HPP
#define ZIPFILE_HPP

#include <cstdint>
#include <string>
#include <vector>
#include <zlib.h>

namespace zipfile
{
struct entry
{
    std::string name;
    std::string data; // empty for directories
    bool deflate = false;
    bool dir() const { return !name.empty() && name.back() == '/' && data.empty(); }
};

inline void le(std::string& s, std::uint64_t v, int n)
{
    for (int i = 0; i < n; ++i) s += static_cast<char>(v >> (8 * i));
}

/// A ZIP file with these entries, whatever they are.
inline std::string make_zip(const std::vector<entry>& es, const std::string& prefix, const std::string& comment)
{
    std::string out = prefix, central;
    for (auto& e : es) {
        const auto crc = crc32(0, reinterpret_cast<const Bytef*>(e.data.data()), static_cast<uInt>(e.data.size()));
        std::string body = e.data;
        if (e.deflate) {
            z_stream z{};
            deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
            body.resize(deflateBound(&z, e.data.size()) + 16);
            z.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(e.data.data()));
            z.avail_in = static_cast<uInt>(e.data.size());
            z.next_out = reinterpret_cast<Bytef*>(body.data());
            z.avail_out = static_cast<uInt>(body.size());
            deflate(&z, Z_FINISH);
            body.resize(z.total_out);
            deflateEnd(&z);
        }
        std::string common;
        le(common, 20, 2); // version needed
        le(common, 0x800, 2); // UTF-8 names
        le(common, e.deflate ? 8 : 0, 2);
        le(common, 0x6000, 2); // time
        le(common, 0x5821, 2); // date
        le(common, crc, 4);
        le(common, body.size(), 4);
        le(common, e.data.size(), 4);
        le(common, e.name.size(), 2);
        le(common, 0, 2); // extra
        const auto offset = out.size();
        le(out, 0x04034b50, 4);
        out += common + e.name + body;
        le(central, 0x02014b50, 4);
        le(central, 0x0314, 2); // made by Unix
        central += common;
        le(central, 0, 2); // comment
        le(central, 0, 2); // disk
        le(central, 0, 2); // internal attributes
        le(central, e.dir() ? 0x41ed0010u : 0x81a40000u, 4);
        le(central, offset, 4);
        central += e.name;
    }
    const auto start = out.size();
    out += central;
    le(out, 0x06054b50, 4);
    le(out, 0, 4);
    le(out, es.size(), 2);
    le(out, es.size(), 2);
    le(out, central.size(), 4);
    le(out, start, 4);
    le(out, comment.size(), 2);
    return out + comment;
}
} // namespace zipfile
#endif
