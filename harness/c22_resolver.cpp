// C22: model lookup asks sub-resolvers in order, resolving references to the base.
#include "uri_common.hpp"
#include "fmu_stub.hpp"

#include <cosim/orchestration.hpp>

#include <boost/log/core.hpp>

using namespace ref;

namespace
{

struct lookup_failed : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct fake_model : cosim::model
{
    explicit fake_model(int r)
        : resolver(r)
    { }
    std::shared_ptr<const cosim::model_description> description() const noexcept override { return nullptr; }
    std::shared_ptr<cosim::slave> instantiate(std::string_view) override { return nullptr; }
    int resolver;
};

/// What a sub-resolver does with a URI.
enum answer
{
    decline,
    accept,
    refuse
};

struct call_record
{
    int resolver;
    bool two; // the overload with a base
    std::string base, uri;
    bool operator==(const call_record& o) const { return resolver == o.resolver && two == o.two && base == o.base && uri == o.uri; }
};

std::vector<call_record> calls;

struct behaviour
{
    int index;
    int declines, accepts; // per cent
    bool ownResolution; // overrides the overload with a base
    answer operator()(const std::string& text) const
    {
        std::uint64_t h = 1469598103934665603u + static_cast<std::uint64_t>(index) * 77777u;
        for (char ch : text) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211u;
        const auto x = static_cast<int>((h >> 17) % 100);
        return x < declines ? decline : x < declines + accepts ? accept : refuse;
    }
};

class fake_sub : public cosim::model_uri_sub_resolver
{
public:
    explicit fake_sub(behaviour b)
        : b_(b)
    { }
    using cosim::model_uri_sub_resolver::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& u) override
    {
        calls.push_back({b_.index, false, "", std::string(u.view())});
        return answer_to(std::string(u.view()));
    }

protected:
    behaviour b_;
    std::shared_ptr<cosim::model> answer_to(const std::string& text)
    {
        switch (b_(text)) {
            case decline: return nullptr;
            case accept: return std::make_shared<fake_model>(b_.index);
            default: throw lookup_failed(pbt::cat(b_.index, " ", text));
        }
    }
};

class own_sub : public fake_sub
{
public:
    using fake_sub::fake_sub;
    using fake_sub::lookup_model;
    std::shared_ptr<cosim::model> lookup_model(const cosim::uri& base, const cosim::uri& u) override
    {
        calls.push_back({b_.index, true, std::string(base.view()), std::string(u.view())});
        return answer_to(std::string(base.view()) + " " + std::string(u.view()));
    }
};

std::string decode(const std::string& s)
{
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else r += s[i];
    }
    return r;
}

/// Like the file name extension of a path, by its definition.
bool has_fmu_extension(const std::string& path)
{
    const auto name = path.substr(path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
    return name.size() > 4 && name.compare(name.size() - 4, 4, ".fmu") == 0;
}

parts gen_uri(pbt::test_case& c, int schemePercent, bool files)
{
    auto p = gen_valid(c, schemePercent);
    if (files && c.chance(60)) {
        if (p.scheme) p.scheme = c.chance(90) ? "file" : c.one_of<std::string>({"files", "fil", "file2", "file+x", "xfile"});
        const bool other = p.scheme && *p.scheme != "file"; // which the resolver for files has nothing to do with
        if (other) c.label("like a file");
        if (p.authority || (p.scheme && c.chance(80))) {
            p.authority = c.chance(other ? 95 : 70) ? "" : c.chance(50) ? "localhost" : c.one_of<std::string>({"example.com", "LOCALHOST2", "localhost:1", "@localhost", "local"});
            if (!p.path.empty() && p.path[0] != '/') p.path = "/" + p.path;
        }
        if (c.chance(80)) p.path += c.one_of<std::string>({"x.fmu", "m%2Efmu", ".fmu", "a.fmu/", "/b.fmu", "c.FMU", "d.fmu.x", "e.%66mu", "f.g.fmu", "%2Ffmu", "h.fm"});
        if (p.authority && !p.path.empty() && p.path[0] != '/') p.path = "/" + p.path;
        if (!p.authority)
            while (p.path.compare(0, 2, "//") == 0) p.path.erase(0, 1);
    }
    return p;
}

/// Only its identity matters.
class no_cache : public cosim::file_cache
{
public:
    std::unique_ptr<directory_rw> get_directory_rw(std::string_view) override { throw std::logic_error("unexpected use of the cache"); }
    std::unique_ptr<directory_ro> get_directory_ro(std::string_view) override { throw std::logic_error("unexpected use of the cache"); }
};

constexpr int file_resolver = -1;

struct expected
{
    enum kind_t { model, none, sub_error, import_error, invalid, either } kind = none;
    int resolver = 0;
    std::string detail;
};

void run(pbt::test_case& c)
{
    calls.clear();
    fmu_stub::imports.clear();
    fmu_stub::instances.clear();
    const bool importsFail = c.chance(15);
    fmu_stub::describe = [importsFail](const std::string& p) -> std::shared_ptr<const cosim::model_description> {
        if (importsFail) throw lookup_failed("import " + p);
        auto md = std::make_shared<cosim::model_description>();
        md->name = p;
        return md;
    };
    std::shared_ptr<cosim::file_cache> cache;
    std::vector<behaviour> subs; // index -1: the resolver for files
    cosim::model_uri_resolver r;
    bool files = false;
    if (c.chance(20)) {
        files = true;
        if (c.chance(50)) cache = std::make_shared<no_cache>();
        auto d = cosim::default_model_uri_resolver(cache);
        r = std::move(*d);
        subs.push_back({file_resolver, 0, 0, false});
        c.note("default resolver");
    }
    bool ordered = false, thrown = false;
    c.repeat(2, c.sized(8, 30), c.sized(6, 14), [&](int) {
        switch (c.weighted({subs.size() < 6 ? 4 : 0, 6, 4, 1})) {
            case 0: {
                if (!files && c.chance(25)) {
                    files = true;
                    if (c.chance(50)) {
                        cache = std::make_shared<no_cache>();
                        r.add_sub_resolver(std::make_shared<cosim::fmu_file_uri_sub_resolver>(cache));
                    } else r.add_sub_resolver(std::make_shared<cosim::fmu_file_uri_sub_resolver>());
                    subs.push_back({file_resolver, 0, 0, false});
                    c.note("add the resolver for files");
                    return;
                }
                behaviour b;
                b.index = static_cast<int>(subs.size());
                b.declines = c.one_of<int>({70, 100, 50, 90, 0});
                b.accepts = b.declines == 100 ? 0 : (100 - b.declines) * c.one_of<int>({80, 100, 50}) / 100;
                b.ownResolution = c.chance(25);
                if (b.ownResolution) r.add_sub_resolver(std::make_shared<own_sub>(b));
                else r.add_sub_resolver(std::make_shared<fake_sub>(b));
                subs.push_back(b);
                c.note(pbt::cat("add ", b.index, " declining ", b.declines, "% accepting ", b.accepts, "%", b.ownResolution ? ", with its own resolution" : ""));
                return;
            }
            case 3: {
                cosim::model_uri_resolver other(std::move(r));
                cosim::model_uri_resolver third;
                third = std::move(other);
                r = std::move(third);
                return;
            }
            default:;
        }
        const bool two = c.chance(60);
        parts base;
        if (two) base = gen_uri(c, 85, files);
        parts p = gen_uri(c, two ? 35 : 90, files);
        const auto bt = recompose(base), pt = recompose(p);
        // What the standard resolution gives.
        parts target = p;
        if (two) target = p.scheme ? resolve(p, p) : base.scheme ? resolve(base, p) : p;
        const bool absolute = target.scheme.has_value();
        if (absolute && !target.authority && target.path.compare(0, 2, "//") == 0) return; // can't be represented
        const auto text = recompose(target);
        c.note(two ? pbt::cat("look up ", pt, " relative to ", bt) : pbt::cat("look up ", pt));

        expected want;
        std::vector<call_record> wantCalls;
        std::vector<std::string> wantImports;
        if (!absolute) want.kind = expected::invalid;
        else {
            for (const auto& b : subs) {
                answer a = decline;
                if (b.index == file_resolver) {
                    if (*target.scheme != "file") continue;
                    if (!target.authority) { // whether such URIs are supported is not specified
                        want.kind = expected::either;
                        break;
                    }
                    if (*target.authority != "" && *target.authority != "localhost") continue;
                    const auto path = decode(target.path);
                    if (!has_fmu_extension(path)) continue;
                    wantImports.push_back(path);
                    want.kind = importsFail ? expected::import_error : expected::model;
                    want.resolver = file_resolver;
                    want.detail = path;
                    break;
                }
                if (two && b.ownResolution) {
                    wantCalls.push_back({b.index, true, bt, pt});
                    a = b(bt + " " + pt);
                } else {
                    wantCalls.push_back({b.index, false, "", text});
                    a = b(text);
                }
                if (a == decline) continue;
                want.kind = a == accept ? expected::model : expected::sub_error;
                want.resolver = b.index;
                want.detail = pbt::cat(b.index, " ", two && b.ownResolution ? bt + " " + pt : text);
                break;
            }
        }

        calls.clear();
        fmu_stub::imports.clear();
        expected got;
        std::shared_ptr<cosim::model> m;
        std::string message;
        try {
            m = two ? r.lookup_model(cosim::uri(bt), cosim::uri(pt)) : r.lookup_model(cosim::uri(pt));
            got.kind = expected::model;
        } catch (const lookup_failed& e) {
            message = e.what();
            got.kind = message.rfind("import ", 0) == 0 ? expected::import_error : expected::sub_error;
        } catch (const std::invalid_argument& e) {
            message = e.what();
            got.kind = expected::invalid;
        } catch (const std::runtime_error& e) {
            message = e.what();
            got.kind = expected::none;
        }
        if (want.kind == expected::either) {
            c.label("file URI without authority");
            return;
        }
        static const char* const names[] = {"a model", "no resolver", "an error from a resolver", "an error from the import", "invalid argument", "?"};
        PBT_REQUIRE("outcome", got.kind == want.kind, "looking up ", pt, two ? " relative to " + bt : std::string(), " gave ", names[got.kind], " (", message, ") instead of ", names[want.kind]);
        if (calls != wantCalls) {
            std::string s;
            for (const auto& x : calls) s += pbt::cat("\n  ", x.resolver, x.two ? " relative to " + x.base : std::string(), " ", x.uri);
            s += "\nexpected:";
            for (const auto& x : wantCalls) s += pbt::cat("\n  ", x.resolver, x.two ? " relative to " + x.base : std::string(), " ", x.uri);
            pbt::fail("calls", "sub-resolvers were asked:" + s);
        }
        PBT_REQUIRE("imports", fmu_stub::imports.size() == wantImports.size(), fmu_stub::imports.size(), " imports instead of ", wantImports.size());
        for (std::size_t i = 0; i < wantImports.size(); ++i) {
            PBT_REQUIRE("imports", fmu_stub::imports[i].path == wantImports[i], pbt::quote(fmu_stub::imports[i].path), " instead of ", pbt::quote(wantImports[i]));
            PBT_REQUIRE("cache", fmu_stub::imports[i].cache && (!cache || fmu_stub::imports[i].cache == cache), "not the given cache");
        }
        switch (want.kind) {
            case expected::model:
                PBT_REQUIRE("null-model", m != nullptr, "null");
                if (want.resolver == file_resolver) {
                    PBT_REQUIRE("model", m->description() && m->description()->name == want.detail, "description");
                    fmu_stub::instances.clear();
                    m->instantiate("an instance");
                    PBT_REQUIRE("instantiate", fmu_stub::instances.size() == 1 && fmu_stub::instances[0] == std::make_pair(want.detail, std::string("an instance")), "not passed on");
                    c.label("FMU");
                } else {
                    auto f = std::dynamic_pointer_cast<fake_model>(m);
                    PBT_REQUIRE("model", f && f->resolver == want.resolver, "the model of ", f ? f->resolver : -9, " instead of ", want.resolver);
                }
                break;
            case expected::none:
                PBT_REQUIRE("message", message.find(pt) != std::string::npos || message.find(text) != std::string::npos, pbt::quote(message), " does not name ", pt);
                break;
            case expected::sub_error:
                PBT_REQUIRE("message", message == want.detail, pbt::quote(message), " instead of ", pbt::quote(want.detail));
                thrown = true;
                break;
            default:;
        }
        if (!absolute) c.label("not absolute");
        if (two && p.scheme && !base.scheme) c.label("absolute reference, relative base");
        if (wantCalls.size() > 1 && want.kind != expected::none) ordered = true;
    });
    if (ordered) c.nontrivial();
    if (thrown) c.label("resolver throws");
}

} // namespace

int main(int argc, char** argv)
{
    pbt::spec s;
    s.id = "C22";
    s.rule =
        "Cases are histories of adding sub-resolvers (accepting, declining and failing; with the standard or their own reference resolution; also the one for FMU files, with FMU import replaced by a stand-in) and lookups of generated URI references, with and without a base. "
        "Which resolvers are asked for what, and the outcome, are predicted with an independent implementation of RFC 3986. Non-trivial: a lookup is decided by another than the first resolver.";
    s.quick_cases = 400000;
    s.thorough_cases = 8000000;
    s.run = run;
    s.setup = [] { boost::log::core::get()->set_logging_enabled(false); };
    return pbt::main(argc, argv, s);
}
