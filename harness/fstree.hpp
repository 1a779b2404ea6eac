// Snapshots of directory trees, and directory trees to compare them with.
#ifndef FSTREE_HPP
#define FSTREE_HPP

#include "pbt.hpp"

#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <string>
#include <unistd.h>

namespace fstree
{
namespace fs = std::filesystem;

/// Relative path -> file contents, or "<dir>" for a directory.
using tree = std::map<std::string, std::string>;

inline std::string slurp(const fs::path& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

inline void spit(const fs::path& p, const std::string& text)
{
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << text;
    f.close();
    if (!f) pbt::fail("harness", "cannot write " + p.string());
}

inline tree snapshot(const fs::path& root)
{
    tree t;
    std::error_code ec;
    if (!fs::exists(fs::symlink_status(root, ec))) return t;
    for (auto it = fs::recursive_directory_iterator(root); it != fs::recursive_directory_iterator(); ++it) {
        const auto rel = it->path().lexically_relative(root).string();
        if (it->is_symlink()) t[rel] = "<link>" + fs::read_symlink(it->path()).string();
        else if (it->is_directory()) t[rel] = "<dir>";
        else t[rel] = "=" + slurp(it->path());
    }
    return t;
}

inline std::string diff(const tree& want, const tree& got)
{
    std::string r;
    auto clip = [](const std::string& s) { return s.size() > 60 ? s.substr(0, 60) + "..." : s; };
    for (auto& [k, v] : want) {
        auto it = got.find(k);
        if (it == got.end()) r += "missing " + pbt::quote(k) + "; ";
        else if (it->second != v) r += pbt::quote(k) + " is " + pbt::quote(clip(it->second)) + " instead of " + pbt::quote(clip(v)) + "; ";
    }
    for (auto& [k, v] : got)
        if (!want.count(k)) r += "unexpected " + pbt::quote(k) + "; ";
    return r;
}

/// Removes everything below a directory in the scratch directory.
inline void wipe(const fs::path& p)
{
    const auto s = p.string();
    if (s.rfind(pbt::scratch(), 0) != 0) pbt::fail("harness", "will not wipe " + s);
    std::error_code ec;
    if (!fs::exists(p)) return;
    for (auto& e : fs::recursive_directory_iterator(p, ec))
        if (!e.is_symlink()) fs::permissions(e.path(), fs::perms::owner_all, fs::perm_options::add, ec);
    for (auto& e : fs::directory_iterator(p)) fs::remove_all(e.path());
}

/// A fresh, empty directory in the scratch directory.
inline fs::path fresh(const std::string& name)
{
    const fs::path p = fs::path(pbt::scratch()) / name;
    fs::create_directories(p);
    wipe(p);
    return p;
}

} // namespace fstree
#endif
