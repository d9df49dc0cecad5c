#include "wb.pg.hh"
#include "probe.hh"
using namespace protogen_W;
void use_b( void **x, std::string &s, Parameters *params )
{
    Whole &w = *(Whole*) x[0]; Part &p = *(Part*) x[1];
    Whole fw; Part fp; w = fw; p = fp;
    w.deserialize(s, params); w.serialize(s, params); w.clear(); w.swap(w); if (w.empty() || w == w) w = w;
    p.deserialize(s, params); p.serialize(s, params); p.clear(); p.swap(p); if (p.empty() || p == p) p = p;
    json<Whole>::read_field(*(json_context*) 0, s, w);
}
