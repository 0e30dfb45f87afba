#include "geo.hpp"
#include "core/angular_quadrature.hpp"
#include "sweepers/moc/ray_data.hpp"
static json quadj(const AngularQuadrature &q)
{
    json r = json::array();
    for (int i = 0; i < q.ndir(); i++) r.push_back({{"o", {q[i].ox, q[i].oy, q[i].oz}}, {"w", q[i].weight}});
    return r;
}
static json raysj(const moc::RayData &rd, int np, bool lens, bool cm)
{
    json r = json::array();
    for (int p = 0; p < np; p++) {
        json pa = json::array();
        for (auto &ar : rd[p]) {
            json aa = json::array();
            for (auto &ray : ar) {
                json q = {{"b", {ray.bc(0), ray.bc(1)}}};
                if (lens) {
                    q["l"] = hv::vecj(ray.seg_len());
                    q["i"] = hv::arr(ray.seg_index());
                }
                if (cm) {
                    json f = json::array(), b = json::array();
                    for (auto &c : ray.cm_data()) {
                        f.push_back({(int)c.fw, (int)c.nseg_fw});
                        b.push_back({(int)c.bw, (int)c.nseg_bw});
                    }
                    q["fw"] = f; q["bw"] = b;
                    q["cell"] = {(int)ray.cm_cell_fw(), (int)ray.cm_cell_bw()};
                    q["surf"] = {(int)ray.cm_surf_fw(), (int)ray.cm_surf_bw()};
                    q["n"] = ray.nseg();
                }
                aa.push_back(q);
            }
            pa.push_back(aa);
        }
        r.push_back(pa);
    }
    return r;
}
static json one(const json &c)
{
    pugi::xml_document doc;
    hv::load(c, doc);
    CoreMesh mesh(doc);
    AngularQuadrature quad(doc.child("ang_quad"));
    auto rx = doc.child("rays");
    bool cm = c["cm"].get<int>();
    json r;
    int np = mesh.n_unique_planes();
    r["rep"] = r["areas"] = json::array();
    for (int p = 0; p < np; p++) {
        int iz = 0;
        while (mesh.unique_plane_ids()[iz] != p) iz++;
        r["rep"].push_back(iz);
        r["areas"].push_back(hv::vecj(mesh.unique_plane(p).areas()));
    }
    moc::RayData rd(rx, quad, mesh);
    if (!cm) r["rays"] = raysj(rd, np, true, false);
    if (rx.attribute("volume_correction")) rx.attribute("volume_correction").set_value("none");
    else rx.append_attribute("volume_correction").set_value("none");
    moc::RayData plain(rx, quad, mesh);
    r["plain"] = raysj(plain, np, true, cm);
    int nd = quad.ndir_oct();
    r["nd"] = nd;
    r["nx"] = r["ny"] = r["space"] = json::array();
    for (int a = 0; a < 4 * nd; a++) {
        r["nx"].push_back(rd.nx(a));
        r["ny"].push_back(rd.ny(a));
        r["space"].push_back(rd.spacing(a));
    }
    r["quad0"] = quadj(quad);
    r["quad"]  = quadj(rd.ang_quad());
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
