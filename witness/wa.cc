// Instantiates everything in the generated code and its runtime, so the
// analysis sees the body of each function a user can call. Never executed.
#include "wa.pg.hh"
#include "probe.hh"
#include <list>

using namespace protogen_W;
using namespace wa::inner;

template <typename E>
static void use_entity( E &a, E &b, std::string &s, std::vector<char> &v, std::istream &is, std::ostream &os,
    const char *p, char *q, size_t n, Parameters *params, protogen_W::istream &pis, protogen_W::ostream &pos )
{
    E fresh;
    E copy(a);
    E moved(std::move(copy));
    fresh = moved;
    a.deserialize(pis, params);
    a.deserialize(s, params);
    a.deserialize(v, params);
    a.deserialize(is, params);
    a.deserialize(p, n, params);
    a.serialize(pos, params);
    a.serialize(s, params);
    a.serialize(v, params);
    a.serialize(os, params);
    a.serialize(q, n, params);
    a.clear();
    a.swap(b);
    if (a.empty() || a.equal(b) || a == b || a != b) a = b;
    json<E>::read(*(json_context*) 0, a);
    json<E>::read_field(*(json_context*) 0, s, a);
    json<E>::write(*(json_context*) 0, a);
    json<E>::empty(a);
    json<E>::clear(a);
    json<E>::equal(a, b);
    json<E>::swap(a, b);
}

template <typename T>
static void use_array( T &a, std::string &s, std::vector<char> &v, const char *p, size_t n, Parameters *params,
    protogen_W::istream &pis, protogen_W::ostream &pos )
{
    deserialize_array(a, pis, params);
    deserialize_array(a, s, params);
    deserialize_array(a, v, params);
    deserialize_array(a, p, n, params);
    serialize_array(a, pos, params);
    serialize_array(a, s, params);
    serialize_array(a, v, params);
}

template <typename T>
static void use_field( field<T> &a, field<T> &b, T &c )
{
    a = b; a = c; a.swap(b); a.swap(c); a.clear();
    field<T> d(a);
    field<T> e(std::move(a));
    if (a.empty() || a == b || a != b || a == c || a != c) c = (T) a;
}

template <typename T>
static void use_codec( json_context &ctx, T &a, T &b )
{
    json<T>::read(ctx, a); json<T>::write(ctx, a); json<T>::empty(a); json<T>::clear(a);
    json<T>::equal(a, b); json<T>::swap(a, b);
}

void use_strings( string_field &a, string_field &b, std::string &s, const char *p )
{
    string_field d(a), e(s), f(p), g(std::move(b));
    a = b; a = s; a = p; a.swap(b); a.swap(s); a.clear(); a.empty(true);
    if (a.empty() || a == b || a != b || a == s || a != s || a == p || a != p) s = *a;
    const string_field &c = a;
    s = *c; s = (const std::string&) c; (std::string&) a = s;
}

void use_all( void **x, std::string &s, std::vector<char> &v, std::istream &is, std::ostream &os,
    const char *p, char *q, size_t n, Parameters *params, protogen_W::istream &pis, protogen_W::ostream &pos )
{
    #define E(T) use_entity(*(T*) x[0], *(T*) x[1], s, v, is, os, p, q, n, params, pis, pos)
    E(Leaf); E(Nothing); E(AllHidden); E(Scalars); E(Vectors); E(Mixed); E(Shadow); E(Many);
    use_array(*(std::vector<Leaf>*) x[0], s, v, p, n, params, pis, pos);
    use_array(*(std::vector<int32_t>*) x[0], s, v, p, n, params, pis, pos);
    use_array(*(std::list<std::string>*) x[0], s, v, p, n, params, pis, pos);
    #define F(T) use_field<T>(*(field<T>*) x[0], *(field<T>*) x[1], *(T*) x[2])
    F(double); F(float); F(int32_t); F(int64_t); F(uint32_t); F(uint64_t); F(bool);
    #define C(T) use_codec<T>(*(json_context*) x[0], *(T*) x[1], *(T*) x[2])
    C(double); C(float); C(int32_t); C(int64_t); C(uint32_t); C(uint64_t); C(bool); C(std::string); C(string_field);
    C(std::vector<uint8_t>); C(field<double>); C(field<bool>); C(std::list<std::string>);
    // entry points of the analysis of the tokenizer
    iterator_istream<std::string::const_iterator> in(s.begin(), s.end());
    tokenizer tok(in, *params);
    tok.next(); tok.peek(); tok.ignore(); tok.expect(token_id::COMMA);
    ErrorInfo err(PGERR_OK, s, 1, 1);
    tok.set_error(err);
}
