// Generated XML documents: an element tree and a writer which varies everything
// that does not matter.
#ifndef XML_HPP
#define XML_HPP

#include "pbt.hpp"

#include <memory>

namespace xml
{
struct el
{
    std::string name;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<std::shared_ptr<el>> kids;
    std::string text;

    el* add(const std::string& n, std::vector<std::pair<std::string, std::string>> a = {}, const std::string& t = "")
    {
        kids.push_back(std::make_shared<el>(el{n, std::move(a), {}, t}));
        return kids.back().get();
    }
    std::string* attr(const std::string& n)
    {
        for (auto& [k, v] : attrs) {
            if (k == n) return &v;
        }
        return nullptr;
    }
    void drop(const std::string& n)
    {
        for (auto it = attrs.begin(); it != attrs.end();) it = it->first == n ? attrs.erase(it) : std::next(it);
    }
    std::shared_ptr<el> copy() const
    {
        auto r = std::make_shared<el>(*this);
        for (auto& k : r->kids) k = k->copy();
        return r;
    }
};
using ptr = std::shared_ptr<el>;

inline void each(el& e, const std::function<void(el&, el*)>& f, el* parent = nullptr)
{
    f(e, parent);
    for (auto& k : e.kids) each(*k, f, &e);
}

/// All elements with a given name ("" for all).
inline std::vector<el*> find(el& root, const std::string& name)
{
    std::vector<el*> r;
    each(root, [&](el& e, el*) {
        if (name.empty() || e.name == name) r.push_back(&e);
    });
    return r;
}

struct style
{
    bool comments = false, pis = false, refs = false, singles = false, spaces = false, pretty = true, cdata = false;
};

inline style gen_style(pbt::test_case& c)
{
    style s;
    s.comments = c.chance(20);
    s.pis = c.chance(10);
    s.refs = c.chance(15);
    s.singles = c.chance(20);
    s.spaces = c.chance(20);
    s.pretty = !c.chance(30);
    s.cdata = c.chance(10);
    return s;
}

inline std::string escape(pbt::test_case& c, const style& s, const std::string& t, bool attr, char quote)
{
    std::string r;
    for (std::size_t i = 0; i < t.size(); ++i) {
        const char ch = t[i];
        const auto u = static_cast<unsigned char>(ch);
        if (ch == '&') r += "&amp;";
        else if (ch == '<') r += "&lt;";
        else if (ch == '>' && (!attr || c.chance(50))) r += "&gt;";
        else if (attr && ch == quote) r += ch == '"' ? "&quot;" : "&apos;";
        else if (u < 32) r += pbt::cat("&#", static_cast<int>(u), ";");
        else if (s.refs && u < 128 && c.chance(15)) r += c.chance(50) ? pbt::cat("&#", static_cast<int>(u), ";") : pbt::cat("&#x", std::hex, static_cast<int>(u), ";");
        else r += ch;
    }
    return r;
}

inline std::string gap(pbt::test_case& c, const style& s)
{
    std::string r;
    if (s.comments && c.chance(30)) r += "<!-- <Simulators> & so on -->";
    if (s.pis && c.chance(20)) r += "<?something or=\"other\"?>";
    return r;
}

inline void write(pbt::test_case& c, const style& s, el& e, std::string& out, int depth)
{
    const std::string nl = s.pretty ? "\n" + std::string(static_cast<std::size_t>(depth) * 2, ' ') : "";
    out += nl + gap(c, s) + "<" + e.name;
    for (auto& [k, v] : e.attrs) {
        const char q = s.singles && c.chance(50) ? '\'' : '"';
        out += (s.spaces && c.chance(30) ? "\n\t " : " ") + k + (s.spaces && c.chance(20) ? " = " : "=") + q + escape(c, s, v, true, q) + q;
    }
    if (e.kids.empty() && e.text.empty() && !(s.spaces && c.chance(20))) {
        out += s.spaces && c.chance(30) ? " />" : "/>";
        return;
    }
    out += ">";
    if (!e.text.empty()) {
        if (s.cdata && c.chance(50) && e.text.find("]]>") == std::string::npos) out += "<![CDATA[" + e.text + "]]>";
        else out += escape(c, s, e.text, false, 0);
    }
    for (auto& k : e.kids) write(c, s, *k, out, depth + 1);
    if (!e.kids.empty()) out += gap(c, s) + nl;
    out += "</" + e.name + (s.spaces && c.chance(20) ? " >" : ">");
}

inline std::string write_document(pbt::test_case& c, el& root)
{
    const auto s = gen_style(c);
    std::string out;
    switch (c.draw(3)) {
        case 0: out = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; break;
        case 1: out = ""; break;
        case 2: out = "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n"; break;
        case 3: out = "\xEF\xBB\xBF<?xml version=\"1.0\"?>"; break;
    }
    if (s.comments) out += "<!-- A comment -->\n";
    write(c, s, root, out, 0);
    if (s.pretty) out += "\n";
    if (s.comments) out += "<!-- The end -->";
    return out;
}

/// Damages the text of a document.
inline void damage(pbt::test_case& c, std::string& t)
{
    for (int k = c.irange(1, 3); k > 0; --k) {
        if (t.empty()) return;
        const auto p = c.draw(t.size() - 1);
        switch (c.draw(4)) {
            case 0: t.resize(p); break;
            case 1: t[p] = c.one_of<char>({'<', '>', '"', '&', '\0', '\xff', '/', ' ', 'x', '=', '\xc3'}); break;
            case 2: t.erase(p, 1 + c.draw(20)); break;
            case 3: t.insert(p, c.one_of<std::string>({"<", ">", "&", "\"", "</x>", "<x>", "<x/>", "]]>", "<!--", "&nope;", "0", "\xff"})); break;
            default: {
                const auto n = 1 + c.draw(40);
                t.insert(c.draw(t.size() - 1), t.substr(p, n));
            }
        }
    }
}

/// Makes one change to a document's structure.
inline void mutate(pbt::test_case& c, el& root)
{
    std::vector<std::pair<el*, el*>> all;
    each(root, [&](el& e, el* p) { all.push_back({&e, p}); });
    auto& [e, p] = all[c.draw(all.size() - 1)];
    switch (c.draw(8)) {
        case 0: // drop an element
            if (p) {
                for (auto it = p->kids.begin(); it != p->kids.end(); ++it) {
                    if (it->get() == e) {
                        p->kids.erase(it);
                        return;
                    }
                }
            }
            break;
        case 1: // duplicate one
            if (p) p->kids.push_back(e->copy());
            break;
        case 2:
            if (!e->attrs.empty()) e->attrs.erase(e->attrs.begin() + static_cast<long>(c.draw(e->attrs.size() - 1)));
            break;
        case 3:
            if (!e->attrs.empty()) e->attrs[c.draw(e->attrs.size() - 1)].second = c.one_of<std::string>({"", "x", "0", "-1", "1e400", "NaN", "INF", "true", "99999999999", " ", "\xc3\xb8", "1.5", "in[0]", "out"});
            break;
        case 4: e->text = c.one_of<std::string>({"", "x", "0", "-1", "NaN", "INF", "1e400", "1e-30"}); break;
        case 5: e->name = all[c.draw(all.size() - 1)].first->name; break;
        case 6: // copy something else into it
            e->kids.push_back(all[c.draw(all.size() - 1)].first->copy());
            break;
        case 7: e->kids.clear(); break;
        default:
            if (!e->attrs.empty()) {
                auto& from = all[c.draw(all.size() - 1)].first->attrs;
                if (!from.empty()) e->attrs[c.draw(e->attrs.size() - 1)].second = from[c.draw(from.size() - 1)].second;
            }
    }
}
} // namespace xml
#endif
