// Read result files with the HDF5 C library, independently of the code under test.
#pragma once
#include "common.hpp"
#include <hdf5.h>
namespace hv {
inline bool h5has(const std::string &file) { return std::ifstream(file).good(); }
struct H5R {
    hid_t f;
    explicit H5R(const std::string &n) { H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); f = H5Fopen(n.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); }
    ~H5R() { if (f >= 0) H5Fclose(f); }
    bool has(const std::string &p) const
    {
        if (f < 0) return false;
        size_t at = 0;
        while (true) {
            at = p.find('/', at + 1);
            if (H5Lexists(f, p.substr(0, at).c_str(), H5P_DEFAULT) <= 0) return false;
            if (at == std::string::npos) return true;
        }
    }
    // {"dims": [...], "v": [...]} or null
    json get(const std::string &p) const
    {
        if (!has(p)) return nullptr;
        hid_t d = H5Dopen2(f, p.c_str(), H5P_DEFAULT);
        if (d < 0) return nullptr;
        hid_t s = H5Dget_space(d), t = H5Dget_type(d);
        int n = H5Sget_simple_extent_ndims(s);
        std::vector<hsize_t> dims(n > 0 ? n : 0);
        if (n > 0) H5Sget_simple_extent_dims(s, dims.data(), nullptr);
        hssize_t np = H5Sget_simple_extent_npoints(s);
        json r{{"dims", json::array()}, {"v", json::array()}};
        for (auto x : dims) r["dims"].push_back((int)x);
        if (H5Tget_class(t) != H5T_STRING) {
            std::vector<double> v(np > 0 ? np : 0);
            if (np > 0) H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
            for (double x : v) r["v"].push_back(x);
        }
        H5Tclose(t); H5Sclose(s); H5Dclose(d);
        return r;
    }
    json v(const std::string &p) const { json g = get(p); return g.is_null() ? json::array() : g["v"]; }
};
// write a two-dimensional dataset
inline void h5write2(const std::string &file, const std::string &name, const json &rows)
{
    std::remove(file.c_str());
    hid_t f = H5Fcreate(file.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    hsize_t d[2] = {rows.size(), rows[0].size()};
    std::vector<double> v;
    for (auto &r : rows) for (auto &x : r) v.push_back(x.get<double>());
    hid_t s = H5Screate_simple(2, d, nullptr);
    hid_t ds = H5Dcreate2(f, name.c_str(), H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    H5Dclose(ds); H5Sclose(s); H5Fclose(f);
}
}
