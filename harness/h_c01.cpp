// CMFD on a given transport state.
#include <random>
#include "xsj.hpp"
#include "core/cmfd.hpp"
#include "util/h5file.hpp"
#include <cstdio>
static const Surface sides[6] = {Surface::EAST, Surface::NORTH, Surface::WEST, Surface::SOUTH, Surface::TOP, Surface::BOTTOM};
static json sided(const CoreMesh &m, const ArrayB2 &a, int ng)
{
    json r = json::array();
    int n = m.nx() * m.ny() * m.nz();
    for (int g = 0; g < ng; g++) {
        json ga = json::array();
        for (int i = 0; i < n; i++) {
            json c = json::array();
            for (auto s : sides) c.push_back(a(m.coarse_surf(i, s), g));
            ga.push_back(c);
        }
        r.push_back(ga);
    }
    return r;
}
static json partial(const CoreMesh &m, const CoarseData &d, int ng)
{
    json r = json::array();
    int n = m.nx() * m.ny() * m.nz();
    for (int g = 0; g < ng; g++) {
        json ga = json::array();
        for (int i = 0; i < n; i++) {
            json c = json::array();
            for (auto s : sides) {
                auto v = d.partial_current(m.coarse_surf(i, s), g);
                c.push_back(json::array({v[0], v[1]}));
            }
            ga.push_back(c);
        }
        r.push_back(ga);
    }
    return r;
}
static json fluxes(const ArrayB2 &f, int n, int ng)
{
    json r = json::array();
    for (int i = 0; i < n; i++) {
        json c = json::array();
        for (int g = 0; g < ng; g++) c.push_back(f(i, g));
        r.push_back(c);
    }
    return r;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    auto xs = std::make_shared<XSMeshHomogenized>(mesh);
    CMFD cmfd(doc.child("cmfd"), &mesh, xs);
    auto &d = cmfd.coarse_data();
    int ng = xs->n_group(), nx = mesh.nx(), ny = mesh.ny(), nz = mesh.nz(), nm = mesh.n_macroplanes();
    int n = nx * ny * nm;
    std::mt19937_64 rng(c["seed"].get<int>());
    auto U = [&](double a, double b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); };
    json r;
    r["p"] = {{"nx", nx}, {"ny", ny}};
    for (int i = 0; i < nx; i++) r["p"]["dx"].push_back(mesh.dx(i));
    for (int i = 0; i < ny; i++) r["p"]["dy"].push_back(mesh.dy(i));
    for (int i = 0; i < nz; i++) r["p"]["hz"].push_back(mesh.dz(i));
    r["xs"] = hv::xsj(*xs, false);
    // the start: fluxes, and currents in reach of the diffusion coupling
    double spread = c["spread"].get<double>(), scale = c["scale"].get<double>();
    for (int i = 0; i < n; i++) for (int g = 0; g < ng; g++) d.flux(i, g) = scale * U(.3, 2);
    std::vector<double> tr(n * ng), H(nm, 0.0);
    for (auto &x : *xs)
        for (int i : x.reg()) for (int g = 0; g < ng; g++)
            tr[(mesh.macroplane_index(i / (nx * ny)) * nx * ny + i % (nx * ny)) * ng + g] = x.xsmactr(g);
    for (int z = 0; z < nz; z++) H[mesh.macroplane_index(z)] += mesh.dz(z);
    for (int z = 0; z < nz; z++) for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) {
        int f = mesh.coarse_cell(Position(x, y, z));
        int m = mesh.macroplane_index(z), k = (m * ny + y) * nx + x;
        for (int b = 0; b < 6; b++) {
            int X = x + (b == 0) - (b == 2), Y = y + (b == 1) - (b == 3), M = m + (b == 4) - (b == 5);
            bool in = X >= 0 && X < nx && Y >= 0 && Y < ny && M >= 0 && M < nm;
            int kn = (M * ny + Y) * nx + X;
            auto th = [&](int xx, int yy, int mm) { return b == 0 || b == 2 ? mesh.dx(xx) : b == 1 || b == 3 ? mesh.dy(yy) : H[mm]; };
            int sg = (b == 0 || b == 1 || b == 4) ? 1 : -1;
            for (int g = 0; g < ng; g++) {
                double u  = 1 / (3 * tr[k * ng + g] * th(x, y, m));
                double v  = in ? 1 / (3 * tr[kn * ng + g] * th(X, Y, M)) : c["bc"][b] == "vacuum" ? .25 : 0;
                double t  = 2 * u * v / (u + v);
                double p0 = d.flux(k, g), p1 = in ? d.flux(kn, g) : 0;
                double e  = spread * U(-1, 1);
                d.current(mesh.coarse_surf(f, sides[b]), g)      = sg * (t * (p0 - p1) + e * t * (p0 + p1));
                d.surface_flux(mesh.coarse_surf(f, sides[b]), g) = scale * U(.3, 2);
            }
        }
    }
    r["ops"] = json::array();
    double k = c["k0"].get<double>();
    for (auto &op : c["ops"]) {
        d.set_has_radial_data(op["radial"].get<int>() != 0);
        d.set_has_axial_data(op["axial"].get<int>() != 0);
        json o;
        if (op["surf"].get<int>())   // the currents of the run before, new surface fluxes
            for (int i = 0; i < nx * ny * nz; i++) for (auto s : sides) for (int g = 0; g < ng; g++)
                d.surface_flux(mesh.coarse_surf(i, s), g) = scale * U(.3, 2);
        o["phi0"] = fluxes(d.flux, n, ng);
        o["j0"]   = sided(mesh, d.current, ng);
        o["s0"]   = sided(mesh, d.surface_flux, ng);
        o["k0"]   = k;
        cmfd.solve(k);
        o["phi"] = fluxes(cmfd.flux(), n, ng);
        o["k"]   = k;
        o["j"]   = sided(mesh, d.current, ng);
        o["s"]   = sided(mesh, d.surface_flux, ng);
        o["pc"]  = partial(mesh, d, ng);
        r["ops"].push_back(o);
    }
    std::remove("out.h5");
    { H5Node f("out.h5", H5Access::WRITE); cmfd.output(f); }
    r["file"] = json::array();
    {
        H5Node f("out.h5", H5Access::READ);
        for (int g = 0; g < ng; g++) {
            json ga = json::array();
            for (int b = 0; b < 6; b++) {
                std::stringstream s;
                s << sides[b];
                ArrayB1 a;
                f.read_1d("current/" + std::to_string(g + 1) + "/" + s.str(), a);
                json v = json::array();
                for (int i = 0; i < (int)a.size(); i++) v.push_back(a(i));
                ga.push_back(v);
            }
            r["file"].push_back(ga);
        }
    }
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
