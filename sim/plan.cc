#include "plan.h"
#include <sstream>
#include <stdlib.h>
using namespace std;

string esc(const string& s) {
    static const char* H = "0123456789ABCDEF";
    string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == 0xe0 && i + 2 < s.size() && ((unsigned char) s[i + 1] == 0xb8 || (unsigned char) s[i + 1] == 0xb9) && ((unsigned char) s[i + 2] & 0xc0) == 0x80) { r += s.substr(i, 3); i += 2; }
        else if (c > 0x20 && c < 0x7f && c != '%') r += c;
        else { r += '%'; r += H[c >> 4]; r += H[c & 15]; }
    }
    return r;
}
string unesc(const string& s) {
    string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%' && i + 2 < s.size() + 0) { r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else r += s[i];
    return r;
}
string Plan::text() const {
    string r = "plan " + prop + " " + to_string(seed) + "\n";
    for (auto& o : ops) {
        r += o.name;
        for (auto& p : o.kv) r += " " + p.first + "=" + esc(p.second);
        r += "\n";
    }
    return r;
}
bool Plan::parse(const string& t) {
    istringstream is(t); string line; bool head = false;
    ops.clear();
    while (getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        istringstream ls(line); string w; ls >> w;
        if (!head) { if (w != "plan") return false; ls >> prop >> seed; head = true; continue; }
        Op o(w);
        while (ls >> w) { auto p = w.find('='); if (p == string::npos) return false; o.add(w.substr(0, p), unesc(w.substr(p + 1))); }
        ops.push_back(o);
    }
    return head;
}
