#include "xsj.hpp"
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    json r;
    XSMesh t(mesh, MeshTreatment::TRUE), p(mesh, MeshTreatment::PLANE);
    r["ng"]     = (int)t.n_group();
    r["eub"]    = hv::vecj(t.eubounds());
    r["true"]   = hv::xsj(t, true);
    r["truen"]  = t.n_reg_expanded();
    r["plane"]  = hv::xsj(p, true);
    r["planen"] = p.n_reg_expanded();
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
