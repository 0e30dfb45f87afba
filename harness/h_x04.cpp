#include "xsj.hpp"
#include "util/h5file.hpp"
#include <cstdio>
static ArrayB2 fluxarr(const json &f)
{
    int n = f.size(), ng = f[0].size();
    ArrayB2 a(n, ng);
    for (int i = 0; i < n; i++) for (int g = 0; g < ng; g++) a(i, g) = f[i][g].get<double>();
    return a;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    json r;
    XSMeshHomogenized x(mesh);
    r["vol"]  = hv::xsj(x, false);
    r["flux"] = json::array();
    ArrayB2 fl;
    for (auto &f : c["flux"]) {
        ArrayB2 a = fluxarr(f);
        if (fl.size() == 0) { fl.resize(a.shape()); fl = a; x.set_flux(fl); }
        else fl = a;                       // the sweeper changes its flux in place
        x.update();
        r["flux"].push_back(hv::xsj(x, false));
    }
    r["last"] = hv::xsj(x, false);
    { std::remove("all.h5"); H5Node f("all.h5", H5Access::WRITE); x.output(f); }
    {
        pugi::xml_document d2;
        d2.load_string("<sweeper><data file=\"all.h5\"/></sweeper>");
        XSMeshHomogenized y(mesh, d2.child("sweeper"));
        r["back"] = hv::xsj(y, false);
    }
    if (c["parts"].size()) {
        std::string in = "<sweeper>";
        r["single"]    = json::array();
        for (size_t j = 0; j < c["parts"].size(); j++) {
            auto &p = c["parts"][j];
            json c2 = {{"lib", c["lib"]}, {"xml", p["xml"]}};
            pugi::xml_document d1;
            hv::load(c2, d1);
            CoreMesh m1(d1);
            XSMeshHomogenized s(m1);
            std::string fn = "part" + std::to_string(j) + ".h5";
            std::remove(fn.c_str());
            { H5Node f(fn, H5Access::WRITE); s.output(f); }
            r["single"].push_back(hv::xsj(s, false));
            in += "<data file=\"" + fn + "\" bottom_plane=\"" + std::to_string(p["bot"].get<int>()) + "\" top_plane=\"" + std::to_string(p["top"].get<int>()) + "\"/>";
        }
        pugi::xml_document d2;
        d2.load_string((in + "</sweeper>").c_str());
        XSMeshHomogenized y(mesh, d2.child("sweeper"));
        r["part"] = hv::xsj(y, false);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
