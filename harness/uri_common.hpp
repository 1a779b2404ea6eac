#ifndef URI_COMMON_HPP
#define URI_COMMON_HPP
#include "uri_ref.hpp"

#include <cosim/uri.hpp>

inline ref::opt to_opt(std::optional<std::string_view> v)
{
    if (v) return std::string(*v);
    return std::nullopt;
}
inline std::optional<std::string_view> to_view(const ref::opt& v)
{
    if (v) return std::string_view(*v);
    return std::nullopt;
}
inline ref::parts parts_of(const cosim::uri& u)
{
    return {to_opt(u.scheme()), to_opt(u.authority()), std::string(u.path()), to_opt(u.query()), to_opt(u.fragment())};
}
#endif
