// Minimal stand-in for the parts of simdjson's DOM API that /repo uses.  It exists so that the
// project's translation units can be parsed (and, in demonstrations, compiled) without the real library.
#ifndef VERIF_STUB_SIMDJSON_H
#define VERIF_STUB_SIMDJSON_H
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace simdjson {
enum error_code { SUCCESS = 0, TAPE_ERROR, INCORRECT_TYPE, NO_SUCH_FIELD, NUMBER_OUT_OF_RANGE, IO_ERROR };
inline const char* error_message(error_code e) { return e == SUCCESS ? "No error" : "error"; }
inline std::ostream& operator<<(std::ostream& o, error_code e) { return o << error_message(e); }
template <typename T> struct simdjson_result
{
    T first{};
    error_code second = TAPE_ERROR;
    error_code get(T& out) &&
    {
        if (second == SUCCESS) { out = std::move(first); }
        return second;
    }
    // simdjson_result<element> converts to any value the element can be read as.
    template <typename U> error_code get(U& out) &&
    {
        if (second != SUCCESS) { return second; }
        return first.get(out);
    }
    error_code error() const { return second; }
};
class padded_string
{
    std::string s;
  public:
    padded_string() = default;
    padded_string(const char* d, size_t n) : s(d, n) {}
    padded_string(std::string_view v) : s(v) {}
    const char* data() const { return s.data(); }
    size_t size() const { return s.size(); }
    static simdjson_result<padded_string> load(std::string_view path)
    {
        std::ifstream f{std::string(path), std::ios::binary};
        if (!f) { return {padded_string(), IO_ERROR}; }
        std::stringstream ss;
        ss << f.rdbuf();
        return {padded_string(std::string_view(ss.str())), SUCCESS};
    }
};
namespace dom {
struct node
{
    enum K { NUL, BOOL, I64, U64, DBL, STR, ARR, OBJ } k = NUL;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<std::shared_ptr<node>> a;
    std::vector<std::pair<std::string, std::shared_ptr<node>>> o;
};
class array;
class object;
class element
{
  public:
    std::shared_ptr<node> n;
    element() = default;
    explicit element(std::shared_ptr<node> p) : n(std::move(p)) {}
    bool is_null() const { return !n || n->k == node::NUL; }
    error_code get(std::string_view& v) const
    {
        if (!n || n->k != node::STR) { return INCORRECT_TYPE; }
        v = n->s;
        return SUCCESS;
    }
    error_code get(uint64_t& v) const
    {
        if (!n) { return INCORRECT_TYPE; }
        if (n->k == node::U64) { v = n->u; return SUCCESS; }
        if (n->k == node::I64) { if (n->i < 0) { return NUMBER_OUT_OF_RANGE; } v = static_cast<uint64_t>(n->i); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(int64_t& v) const
    {
        if (!n) { return INCORRECT_TYPE; }
        if (n->k == node::I64) { v = n->i; return SUCCESS; }
        if (n->k == node::U64) { return NUMBER_OUT_OF_RANGE; }
        return INCORRECT_TYPE;
    }
    error_code get(double& v) const
    {
        if (!n) { return INCORRECT_TYPE; }
        if (n->k == node::DBL) { v = n->d; return SUCCESS; }
        if (n->k == node::I64) { v = static_cast<double>(n->i); return SUCCESS; }
        if (n->k == node::U64) { v = static_cast<double>(n->u); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(bool& v) const
    {
        if (!n || n->k != node::BOOL) { return INCORRECT_TYPE; }
        v = n->b;
        return SUCCESS;
    }
    error_code get(element& e) const
    {
        if (!n) { return INCORRECT_TYPE; }
        e = *this;
        return SUCCESS;
    }
    error_code get(array& v) const;
    error_code get(object& v) const;
    simdjson_result<element> operator[](std::string_view key) const
    {
        if (!n || n->k != node::OBJ) { return {element(), INCORRECT_TYPE}; }
        for (auto& kv : n->o)
        {
            if (kv.first == key) { return {element(kv.second), SUCCESS}; }
        }
        return {element(), NO_SUCH_FIELD};
    }
    simdjson_result<element> operator[](const char* key) const { return (*this)[std::string_view(key)]; }
};
class array
{
    std::shared_ptr<node> n;
    friend class element;
  public:
    struct iterator
    {
        std::shared_ptr<node> n;
        size_t i;
        element operator*() const { return element(n->a[i]); }
        iterator& operator++() { ++i; return *this; }
        bool operator!=(const iterator& r) const { return i != r.i; }
    };
    size_t size() const { return n ? n->a.size() : 0; }
    iterator begin() const { return {n, 0}; }
    iterator end() const { return {n, size()}; }
};
struct key_value_pair
{
    std::string_view key;
    element value;
};
class object
{
    std::shared_ptr<node> n;
    friend class element;
  public:
    struct iterator
    {
        std::shared_ptr<node> n;
        size_t i;
        key_value_pair operator*() const { return {n->o[i].first, element(n->o[i].second)}; }
        iterator& operator++() { ++i; return *this; }
        bool operator!=(const iterator& r) const { return i != r.i; }
    };
    size_t size() const { return n ? n->o.size() : 0; }
    iterator begin() const { return {n, 0}; }
    iterator end() const { return {n, size()}; }
};
inline error_code element::get(array& v) const
{
    if (!n || n->k != node::ARR) { return INCORRECT_TYPE; }
    v.n = n;
    return SUCCESS;
}
inline error_code element::get(object& v) const
{
    if (!n || n->k != node::OBJ) { return INCORRECT_TYPE; }
    v.n = n;
    return SUCCESS;
}
class parser
{
    const char* p = nullptr;
    const char* e = nullptr;
    bool ok = true;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) { ++p; } }
    std::shared_ptr<node> fail() { ok = false; return std::make_shared<node>(); }
    std::string str()
    {
        std::string r;
        ++p;
        while (p < e && *p != '"')
        {
            if (*p == '\\' && p + 1 < e)
            {
                ++p;
                switch (*p)
                {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'u':
                    if (p + 4 < e) { r += static_cast<char>(std::strtol(std::string(p + 1, 4).c_str(), nullptr, 16)); p += 4; }
                    break;
                default: r += *p;
                }
                ++p;
            }
            else { r += *p++; }
        }
        if (p >= e) { ok = false; return r; }
        ++p;
        return r;
    }
    std::shared_ptr<node> val()
    {
        ws();
        if (p >= e || !ok) { return fail(); }
        auto r = std::make_shared<node>();
        if (*p == '{')
        {
            r->k = node::OBJ;
            ++p;
            ws();
            if (p < e && *p == '}') { ++p; return r; }
            while (ok)
            {
                ws();
                if (p >= e || *p != '"') { return fail(); }
                auto k = str();
                ws();
                if (p >= e || *p != ':') { return fail(); }
                ++p;
                auto v = val();
                r->o.emplace_back(k, v);
                ws();
                if (p < e && *p == ',') { ++p; continue; }
                if (p < e && *p == '}') { ++p; return r; }
                return fail();
            }
            return r;
        }
        if (*p == '[')
        {
            r->k = node::ARR;
            ++p;
            ws();
            if (p < e && *p == ']') { ++p; return r; }
            while (ok)
            {
                r->a.push_back(val());
                ws();
                if (p < e && *p == ',') { ++p; continue; }
                if (p < e && *p == ']') { ++p; return r; }
                return fail();
            }
            return r;
        }
        if (*p == '"') { r->k = node::STR; r->s = str(); return r; }
        auto lit = [&](std::string_view l) { if (static_cast<size_t>(e - p) >= l.size() && std::string_view(p, l.size()) == l) { p += l.size(); return true; } return false; };
        if (lit("true")) { r->k = node::BOOL; r->b = true; return r; }
        if (lit("false")) { r->k = node::BOOL; return r; }
        if (lit("null")) { return r; }
        const char* s = p;
        bool fl = false;
        while (p < e && (std::string_view("+-.eE0123456789").find(*p) != std::string_view::npos)) { if (*p == '.' || *p == 'e' || *p == 'E') { fl = true; } ++p; }
        if (s == p) { return fail(); }
        std::string t(s, p);
        if (fl) { r->k = node::DBL; r->d = std::strtod(t.c_str(), nullptr); return r; }
        if (t[0] == '-') { r->k = node::I64; r->i = std::strtoll(t.c_str(), nullptr, 10); return r; }
        r->u = std::strtoull(t.c_str(), nullptr, 10);
        if (r->u <= INT64_MAX) { r->k = node::I64; r->i = static_cast<int64_t>(r->u); }
        else { r->k = node::U64; }
        return r;
    }
  public:
    simdjson_result<element> parse(const char* d, size_t n)
    {
        p = d; e = d + n; ok = true;
        auto r = val();
        ws();
        if (!ok || p != e) { return {element(), TAPE_ERROR}; }
        return {element(r), SUCCESS};
    }
    simdjson_result<element> parse(std::string_view s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const std::string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const padded_string& s) { return parse(s.data(), s.size()); }
};
} // namespace dom
} // namespace simdjson
#endif
