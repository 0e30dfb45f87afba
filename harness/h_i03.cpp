// Histories of operations on a result file, and its contents whenever closed.
#include "h5r.hpp"
#include <map>
#include "util/blitz_typedefs.hpp"
#include "util/error.hpp"
#include "util/h5file.hpp"
using namespace mocc;
typedef std::vector<std::string> Names;
static std::string path(const json &p)
{
    std::string s;
    for (auto &w : p["w"]) s += (s.empty() ? "" : "/") + w.get<std::string>();
    return (p["abs"].get<bool>() ? "/" : "") + s;
}
static json row(const std::string &p, const char *k) { return json{{"p", p}, {"k", k}, {"dims", json::array()}, {"v", json::array()}, {"s", ""}}; }
static void list(hid_t g, const std::string &at, int depth, json &out)
{
    if (depth == 0) return;
    H5G_info_t info;
    H5Gget_info(g, &info);
    for (hsize_t i = 0; i < info.nlinks; i++) {
        char name[256];
        H5Lget_name_by_idx(g, ".", H5_INDEX_NAME, H5_ITER_INC, i, name, sizeof name, H5P_DEFAULT);
        std::string p = at + "/" + name;
        hid_t o = H5Oopen(g, name, H5P_DEFAULT);
        if (o < 0) { out.push_back(row(p, "none")); continue; }
        if (H5Iget_type(o) == H5I_GROUP) {
            out.push_back(row(p, "g"));
            list(o, p, depth - 1, out);
        } else {
            hid_t s = H5Dget_space(o), t = H5Dget_type(o);
            int n = H5Sget_simple_extent_ndims(s);
            std::vector<hsize_t> dims(n + 1);
            H5Sget_simple_extent_dims(s, dims.data(), nullptr);
            dims.resize(n);
            hssize_t np = H5Sget_simple_extent_npoints(s);
            auto c = H5Tget_class(t);
            json r = row(p, c == H5T_FLOAT ? "d" : c == H5T_INTEGER ? "i" : c == H5T_STRING ? "s" : "?");
            for (auto d : dims) r["dims"].push_back((int)d);
            if (c == H5T_STRING) {
                if (H5Tis_variable_str(t) > 0) {
                    char *txt = nullptr;
                    if (H5Dread(o, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &txt) >= 0 && txt) { r["s"] = txt; free(txt); }
                } else {
                    std::vector<char> b(H5Tget_size(t) + 1, 0);
                    H5Dread(o, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
                    r["s"] = std::string(b.data());
                }
            } else if (np > 0) {
                std::vector<double> v(np);
                H5Dread(o, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
                for (double x : v) r["v"].push_back(x);
            }
            H5Tclose(t); H5Sclose(s);
            out.push_back(r);
        }
        H5Oclose(o);
    }
}
static json contents(const std::string &f)
{
    json r = json::array();
    hid_t h = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (h < 0) return r;
    hid_t g = H5Gopen2(h, "/", H5P_DEFAULT);
    list(g, "", 4, r);
    H5Gclose(g);
    H5Fclose(h);
    return r;
}
// arrays of the given shape, laid out in memory one way or another
template <int N> blitz::Array<double, N> lay(const std::vector<int> &d, const std::string &order)
{
    typedef blitz::Array<double, N> A;
    blitz::TinyVector<int, N> s;
    for (int i = 0; i < N; i++) s[i] = d[i];
    if (order == "f") return A(s, blitz::ColumnMajorArray<N>());
    if (order == "rev") { A a(s); a.reverseSelf(blitz::firstDim); return a; }
    if (order == "part") {
        s[N - 1] *= 2;
        A a(s);
        blitz::TinyVector<int, N> lo = 0, hi, st = 1;
        for (int i = 0; i < N; i++) hi[i] = s[i] - 1;
        st[N - 1] = 2;
        A b(a(blitz::StridedDomain<N>(lo, hi, st)));
        return b;
    }
    return A(s);
}
template <int N, class F> void each(blitz::Array<double, N> &a, F f)
{
    blitz::TinyVector<int, N> i = a.lbound();
    if (a.size() == 0) return;
    while (true) {
        f(a(i));
        int k = N - 1;
        while (k >= 0 && ++i[k] > a.ubound(k)) { i[k] = a.lbound(k); k--; }
        if (k < 0) return;
    }
}
template <int N> void put(H5Node &n, const std::string &p, const std::vector<int> &d, const std::vector<double> &v, const std::string &order)
{
    auto a = lay<N>(d, order);
    size_t i = 0;
    each(a, [&](double &x) { x = v[i++]; });
    n.write(p, a);
}
template <int N> void get(const H5Node &n, const std::string &p, const std::vector<int> &pre, const std::string &order, json &r)
{
    blitz::Array<double, N> a;
    bool empty = (int)pre.size() != N;
    for (int x : pre) empty = empty || x == 0;
    if (!empty) { a.reference(lay<N>(pre, order)); a = 0.125; }
    n.read(p, a);
    for (int i = 0; i < N; i++) r["dims"].push_back(a.extent(i));
    each(a, [&](double &x) { r["v"].push_back(x); });
}
static json one(const json &c)
{
    char tmp[] = "/tmp/h_i03_XXXXXX";
    std::string dir = mkdtemp(tmp), file = dir + "/f.h5";
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    H5::Exception::dontPrint();
    std::unique_ptr<H5Node> root;
    std::map<Names, H5Node> kept;
    json res = json::array();
    for (auto &e : c["steps"]) {
        json r{{"ok", true}, {"kind", true}, {"dims", json::array()}, {"v", json::array()}, {"list", json::array()}};
        try {
            std::string op = e["op"], order = e["order"], via = e.value("via", "path");
            if (op == "open") {
                std::string m = e["mode"];
                root.reset(new H5Node(file, m == "w" ? H5Access::WRITE : m == "a" ? H5Access::APPEND : H5Access::READ));
            } else if (op == "close") {
                kept.clear();
                root.reset();
                r["list"] = contents(file);
            } else {
                if (!root) throw std::logic_error("no file");
                Names at = e["at"];
                H5Node n = *root;
                if (!at.empty()) {
                    auto k = kept.find(at);
                    if (via == "kept" && k != kept.end()) n = k->second;
                    else if (via == "chain") for (auto &w : at) n = H5Node(n)[w];
                    else { std::string s; for (auto &w : at) s += (s.empty() ? "" : "/") + w; n = H5Node(n)[s]; }
                }
                std::string p = path(e["p"]);
                std::vector<double> v = e["v"];
                std::vector<int> d = e["dims"], pre = e["pre"];
                int rank = e["rank"];
                if (op == "group") {
                    H5Node g = n.create_group(p);
                    Names full = e["p"]["abs"].get<bool>() ? Names() : at;
                    for (auto &w : e["p"]["w"]) full.push_back(w);
                    kept.erase(full);
                    kept.insert({full, g});
                } else if (op == "vec") n.write(p, v);
                else if (op == "shaped") n.write(p, v, d);
                else if (op == "reshaped") {
                    auto a = lay<1>({(int)v.size()}, order);
                    for (size_t i = 0; i < v.size(); i++) a((int)i) = v[i];
                    n.write(p, a, d);
                } else if (op == "iter") {
                    auto it = n.write(p, v.begin(), v.end(), d);
                    if (it != v.end()) throw std::logic_error("iterator");
                } else if (op == "array") {
                    if (d.size() == 1) put<1>(n, p, d, v, order);
                    else if (d.size() == 2) put<2>(n, p, d, v, order);
                    else put<3>(n, p, d, v, order);
                } else if (op == "int") n.write(p, (int)v[0]);
                else if (op == "uint") n.write(p, (uint64_t)v[0]);
                else if (op == "str") n.write(p, e["s"].get<std::string>());
                else if (op == "link" || op == "soft") {
                    std::string q = path(e["q"]);
                    if (q.empty() && order == "c") q = ".";
                    n.create_link(q, p, op == "soft" ? H5Link::SOFT : H5Link::HARD);
                } else if (op == "dims") {
                    for (auto x : n.dimensions(p)) r["dims"].push_back((int)x);
                } else if (op == "readvec") {
                    std::vector<double> x(pre[0], 0.125);
                    n.read(p, x);
                    r["dims"].push_back((int)x.size());
                    for (double y : x) r["v"].push_back(y);
                } else if (op == "read1d") {
                    ArrayB1 x(pre[0]);
                    x = 0.125;
                    n.read_1d(p, x);
                    r["dims"].push_back((int)x.size());
                    for (int i = 0; i < (int)x.size(); i++) r["v"].push_back(x(i));
                } else if (op == "readarray") {
                    if (rank == 1) get<1>(n, p, pre, order, r);
                    else if (rank == 2) get<2>(n, p, pre, order, r);
                    else get<3>(n, p, pre, order, r);
                } else if (op == "readint") {
                    int x[8] = {77, 77, 77, 77, 77, 77, 77, 77};
                    n.read(p, x[0]);
                    r["v"].push_back((double)x[0]);
                    for (int i = 1; i < 8; i++) if (x[i] != 77) throw std::logic_error("overwritten");
                }
            }
        } catch (const mocc::Exception &) {
            r["ok"] = false;
        } catch (const H5::Exception &) {
            r["ok"] = false;
            r["kind"] = false;
        } catch (const std::exception &) {
            r["ok"] = false;
            r["kind"] = false;
        }
        if (!r["ok"].get<bool>()) r["dims"] = r["v"] = json::array();
        res.push_back(r);
    }
    kept.clear();
    root.reset();
    std::remove(file.c_str());
    rmdir(dir.c_str());
    return json{{"res", res}};
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
