#pragma once
#include "geo.hpp"
#include "util/rng_lcg.hpp"
#include "core/xs_mesh.hpp"
#include "core/xs_mesh_homogenized.hpp"
namespace hv {
inline json xsj(const XSMesh &xm, bool cdf)
{
    json r = json::array();
    for (const auto &x : xm) {
        json o;
        int ng = x.n_group();
        o["reg"] = hv::arr(x.reg());
        for (int g = 0; g < ng; g++) {
            o["tr"].push_back(x.xsmactr(g)); o["nf"].push_back(x.xsmacnf(g)); o["f"].push_back(x.xsmacf(g));
            o["ch"].push_back(x.xsmacch(g)); o["rm"].push_back(x.xsmacrm(g));
            if (cdf) o["rcdf"].push_back(hv::vecj(x.reaction_cdf(g)));
        }
        o["sc"]  = hv::vecj(x.xsmacsc().as_vector());
        o["fis"] = x.is_fissile() ? 1 : 0;
        if (cdf) o["ccdf"] = hv::vecj(x.chi_cdf());
        r.push_back(o);
    }
    return r;
}
}
