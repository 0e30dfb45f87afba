#include "geo.hpp"
#include "core/angular_quadrature.hpp"
#include "util/h5file.hpp"
static json ang(const Angle &a)
{
    return {{"d", {a.ox, a.oy, a.oz}}, {"alpha", a.alpha}, {"theta", a.theta}, {"rs", a.rsintheta}, {"w", a.weight}};
}
static json all(const AngularQuadrature &q)
{
    json r = json::array();
    for (int i = 0; i < q.ndir(); i++) r.push_back(ang(q[i]));
    return r;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    doc.load_string(c["xml"].get<std::string>().c_str());
    AngularQuadrature q(doc.child("ang_quad"));
    json r;
    r["nd"]     = q.ndir_oct();
    r["angles"] = all(q);
    for (int n = 0; n < 3; n++) {
        json a = json::array();
        for (int i = 0; i < q.ndir(); i++) a.push_back(q.reflect(i, (Normal)n));
        r["refl"].push_back(a);
    }
    for (int s = 0; s < 6; s++) {
        json a = json::array();
        for (int i = 0; i < q.ndir(); i++) a.push_back(q.reflect(i, (Surface)s));
        r["refls"].push_back(a);
    }
    r["rev2"] = r["rev3"] = r["up"] = r["refd"] = json::array();
    const Surface faces[3] = {Surface::EAST, Surface::NORTH, Surface::TOP};
    const Surface back[3]  = {Surface::WEST, Surface::SOUTH, Surface::BOTTOM};
    for (int i = 0; i < q.ndir(); i++) {
        r["rev2"].push_back(q.reverse(i));
        r["rev3"].push_back(q.reverse(i, 3));
        json u = json::array(), d = json::array();
        for (int n = 0; n < 3; n++) {
            u.push_back((int)q[i].upwind_surface((Normal)n));
            Angle a = q[i];
            a.reflect(i % 2 ? faces[n] : back[n]);
            d.push_back({a.ox, a.oy, a.oz});
        }
        r["up"].push_back(u);
        r["refd"].push_back(d);
    }
    {
        H5Node h("quad.h5", H5Access::WRITE);
        q.output(h);
    }
    {
        H5Node h("quad.h5", H5Access::READ);
        AngularQuadrature b(h);
        r["h5"]   = all(b);
        r["h5nd"] = b.ndir_oct();
        r["h5eq"] = (b == q && !(b != q)) ? 1 : 0;
    }
    r["mod"] = json::array();
    if (c["newalpha"].size()) {
        int np = q.ndir_oct() / c["newalpha"].size();
        for (int i = 0; i < q.ndir_oct(); i++) {
            Angle a = q[i];
            a.modify_alpha(c["newalpha"][i / np]);
            q.modify_angle(i, a);
        }
        q.update_weights();
        r["mod"] = all(q);
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
