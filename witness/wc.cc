#include "wc.pg.hh"
#include "probe.hh"
using namespace protogen_W;
void use_c( void **x, std::string &s, Parameters *params )
{
    wc::Plain &w = *(wc::Plain*) x[0];
    wc::Plain fw; w = fw;
    w.deserialize(s, params); w.serialize(s, params); w.clear(); w.swap(w); if (w.empty() || w == w) w = w;
}
