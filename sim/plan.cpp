#include "plan.h"
#include <sstream>
#include <istream>
#include <cstring>
const char* const OP_NAMES[NOPKINDS] = {
    "addeq", "subeq", "muleq", "diveq", "add", "sub", "mul", "div",
    "lit", "copy", "cctor", "move", "mctor", "defctor",
    "setdesc", "pushb", "pushf", "pushat", "popb", "popf", "popat", "resize", "clear", "poke",
    "idxr", "idxw", "cmp", "print", "diag", "digin", "sw", "swap", "xform", "phase", "envir"};

std::string op_text(const Op& o) {
    std::ostringstream s;
    s << "op " << OP_NAMES[o.kind] << " d=" << o.d << " a=" << o.a << " b=" << o.b;
    if (o.in) s << " in=" << o.in << " at=" << o.at << ":" << o.atk;
    if (o.how) s << " how=" << o.how;
    if (o.t) s << " t=" << o.t;
    if (o.desc) s << " desc=" << o.desc;
    if (o.pos) s << " pos=" << o.pos;
    if (o.dig) s << " dig=" << o.dig;
    if (!o.digits.empty()) { s << " digits="; for (size_t i = 0; i < o.digits.size(); ++i) s << (i ? "," : "") << o.digits[i]; }
    if (o.rep) s << " rep=" << o.rep;
    if (o.sweep) s << " sweep=" << o.sweep;
    if (o.retry) s << " retry=" << o.retry;
    if (o.restore) s << " restore=" << o.restore;
    if (!o.f.empty()) { s << " f="; for (size_t i = 0; i < o.f.size(); ++i) s << (i ? "," : "") << (o.f[i].mode ? o.f[i].mode : '-') << ":" << o.f[i].k << ":" << o.f[i].exc; }
    if (o.sf.mode || o.sf.n || o.sf.chunk || o.sf.exmask) s << " sf=" << o.sf.mode << ":" << o.sf.n << ":" << o.sf.chunk << ":" << o.sf.exmask;
    return s.str();
}
std::string plan_text(const Plan& p) {
    std::ostringstream s;
    s << "run inst=" << p.inst << " regs=" << p.regs;
    if (p.threads) s << " threads=" << p.threads;
    s << " seed=" << p.seed << "\n";
    for (auto& o : p.ops) s << op_text(o) << "\n";
    return s.str();
}
static std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> r; std::string t; std::istringstream i(s);
    while (std::getline(i, t, c)) r.push_back(t);
    return r;
}
bool parse_plans(std::istream& in, std::vector<Plan>& out, std::string& prop, std::string& err) {
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line); std::string w; ls >> w;
        if (w == "prop") { ls >> prop; continue; }
        if (w == "run") {
            Plan p; std::string kv;
            while (ls >> kv) { size_t e = kv.find('='); std::string k = kv.substr(0, e), v = kv.substr(e + 1);
                if (k == "inst") p.inst = v; else if (k == "regs") p.regs = (int)std::stoul(v); else if (k == "threads") p.threads = std::stoi(v); else if (k == "seed") p.seed = std::stoull(v); }
            out.push_back(p); continue;
        }
        if (w != "op" || out.empty()) { err = "bad line: " + line; return false; }
        Op o; std::string nm, kv; ls >> nm; o.kind = -1;
        for (int i = 0; i < NOPKINDS; ++i) if (nm == OP_NAMES[i]) o.kind = i;
        if (o.kind < 0) { err = "bad op: " + line; return false; }
        while (ls >> kv) {
            size_t e = kv.find('='); std::string k = kv.substr(0, e), v = kv.substr(e + 1);
            if (k == "d") o.d = std::stoi(v); else if (k == "a") o.a = std::stoi(v); else if (k == "b") o.b = std::stoi(v);
            else if (k == "t") o.t = std::stoi(v); else if (k == "desc") o.desc = std::stoi(v); else if (k == "pos") o.pos = std::stoull(v); else if (k == "dig") o.dig = std::stoull(v);
            else if (k == "digits") { for (auto& t : split(v, ',')) o.digits.push_back(std::stoull(t)); }
            else if (k == "how") o.how = std::stoi(v); else if (k == "in") o.in = std::stoi(v); else if (k == "at") { o.at = v[0]; o.atk = std::stoull(v.substr(2)); }
            else if (k == "rep") o.rep = std::stoull(v); else if (k == "sweep") o.sweep = std::stoi(v); else if (k == "retry") o.retry = std::stoi(v); else if (k == "restore") o.restore = std::stoi(v);
            else if (k == "f") { for (auto& t : split(v, ',')) { auto q = split(t, ':'); AllocFault f; f.mode = q[0][0] == '-' ? 0 : q[0][0]; f.k = std::stoull(q[1]); f.exc = std::stoi(q[2]); o.f.push_back(f); } }
            else if (k == "sf") { auto q = split(v, ':'); o.sf.mode = std::stoi(q[0]); o.sf.n = std::stoull(q[1]); o.sf.chunk = std::stoull(q[2]); o.sf.exmask = std::stoi(q[3]); }
        }
        out.back().ops.push_back(o);
    }
    return true;
}
