// The program as a user starts it: in a directory of its own, with files and
// a command line; reports how it ended, what it said and what it left.
#include "h5r.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "pugixml.hpp"
#include "driver.hpp"
#include "input_proc.hpp"
using namespace mocc;
static json treej(const pugi::xml_node &n)
{
    json r{{"n", n.name()}, {"a", json::array()}, {"t", json::array()}, {"k", json::array()}};
    for (auto a : n.attributes()) r["a"].push_back({{"n", a.name()}, {"v", a.value()}});
    for (auto k : n.children()) {
        if (k.type() == pugi::node_element) r["k"].push_back(treej(k));
        if ((k.type() == pugi::node_pcdata || k.type() == pugi::node_cdata) && r["t"].empty()) r["t"].push_back(k.value());
    }
    return r;
}
static void list(const std::string &d, const std::string &rel, std::vector<std::string> &out)
{
    DIR *h = opendir(d.c_str());
    if (!h) return;
    while (dirent *e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        if (e->d_type == DT_DIR) list(d + "/" + n, rel + n + "/", out);
        else out.push_back(rel + n);
    }
    closedir(h);
}
static void wipe(const std::string &d)
{
    DIR *h = opendir(d.c_str());
    if (!h) return;
    while (dirent *e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        if (e->d_type == DT_DIR) wipe(d + "/" + n);
        else unlink((d + "/" + n).c_str());
    }
    closedir(h);
    rmdir(d.c_str());
}
static herr_t visit(hid_t f, const char *name, const H5O_info_t *info, void *p)
{
    if (info->type == H5O_TYPE_DATASET) ((std::vector<std::string> *)p)->push_back(name);
    return 0;
}
static std::string h5string(hid_t f, const char *name)
{
    hid_t d = H5Dopen2(f, name, H5P_DEFAULT);
    if (d < 0) return "";
    hid_t t = H5Dget_type(d), s = H5Dget_space(d);
    std::string r;
    if (H5Tis_variable_str(t) > 0) {
        char *p = nullptr;
        if (H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &p) >= 0 && p) r = p;
        H5Dvlen_reclaim(t, s, H5P_DEFAULT, &p);
    } else {
        std::vector<char> v(H5Tget_size(t) * H5Sget_simple_extent_npoints(s) + 1, 0);
        H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
        r = v.data();
    }
    H5Sclose(s); H5Tclose(t); H5Dclose(d);
    return r;
}
static std::string slurp(const std::string &f)
{
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
// files: name -> text, args: words after the program name
static json once(const json &files, const json &args, bool parse, int lim, bool results)
{
    char tmp[] = "./runXXXXXX";
    std::string dir = mkdtemp(tmp), said = dir + ".said", tell = dir + ".tell";
    std::vector<std::string> given;
    for (auto &f : files.items()) {
        std::string n = f.key();
        for (size_t at = n.find('/'); at != std::string::npos; at = n.find('/', at + 1)) mkdir((dir + "/" + n.substr(0, at)).c_str(), 0755);
        std::ofstream(dir + "/" + n) << f.value().get<std::string>();
    }
    list(dir, "", given);
    std::vector<std::string> words{"mocc"};
    for (auto &a : args) words.push_back(a.get<std::string>());
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(said.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), td = open(tell.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1); dup2(fd, 2);
        setenv("OMP_NUM_THREADS", "1", 1);
        if (chdir(dir.c_str())) _exit(99);
        alarm(lim);
        rlimit mem{6ul << 30, 6ul << 30}, none{0, 0};
        setrlimit(RLIMIT_AS, &mem); setrlimit(RLIMIT_CORE, &none);
        int code = 0;
        if (parse) {
            try {
                InputProcessor ip(words);
                std::stringstream s;
                ip.document().save(s);       // as it is recorded
                pugi::xml_document d;
                d.load_string(s.str().c_str());
                std::string t = json{{"tree", treej(d)}, {"name", ip.case_name()}}.dump();
                if (write(td, t.data(), t.size()) < 0) _exit(99);
            } catch (Exception e) { std::cerr << e.what(); code = 1; } catch (...) { std::abort(); }
        } else [&]() noexcept { code = run(words); }();     // what escapes ends the program
        std::exit(code);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    json r{{"status", WIFEXITED(st) ? "exit" : "signal"}, {"code", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)}};
    std::string text = slurp(said);
    r["said"] = text.find_first_not_of(" \n\t") != std::string::npos;
    r["text"] = text.size() > 500 ? text.substr(text.size() - 500) : text;
    std::vector<std::string> left;
    list(dir, "", left);
    r["files"] = json::array();
    for (auto &f : left) if (std::find(given.begin(), given.end(), f) == given.end()) r["files"].push_back(f);
    r["tree"] = nullptr; r["name"] = "";
    if (parse) {
        std::string t = slurp(tell);
        if (!t.empty()) { json j = json::parse(t); r["tree"] = j["tree"]; r["name"] = j["name"]; }
    } else if (results) {
        r["result"] = json::array();
        for (auto &f : left) if (f.size() > 3 && f.substr(f.size() - 3) == ".h5" && std::find(given.begin(), given.end(), f) == given.end()) {
            hv::H5R h(dir + "/" + f);
            if (h.f < 0) continue;
            pugi::xml_document d;
            d.load_string(h5string(h.f, "input_file").c_str());
            r["tree"] = treej(d);
            std::vector<std::string> names;
            H5Ovisit(h.f, H5_INDEX_NAME, H5_ITER_INC, visit, &names);
            for (auto &n : names) {
                if (n == "input_file" || n == "git_sha1" || n.find("time") != std::string::npos || n.find("abscissae") != std::string::npos) continue;
                r["result"].push_back({{"n", n}, {"v", h.v(n)}});
            }
        }
    }
    wipe(dir);
    unlink(said.c_str()); unlink(tell.c_str());
    return r;
}
static json one(const json &c)
{
    bool parse = c["kind"] == "parse";
    int lim = c.value("lim", 20);
    json r = once(c["files"], c["args"], parse, lim, c.value("results", true));
    if (c.contains("files2")) r["again"] = once(c["files2"], c["args2"], parse, lim, true);
    return r;
}
int main(int argc, char **argv) { return hv::run_cases(argc, argv, one); }
