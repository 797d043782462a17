// The source format of dictionaries, independent of the code under test.
#ifndef SOURCE_H
#define SOURCE_H
#include <cerrno>
#include <cstdlib>
#include <map>
#include <string>
#include <utility>
#include <vector>
using std::map; using std::pair; using std::string; using std::vector;

struct Source { bool wellFormed = true; map<string, string> ent; vector<pair<string, string>> order; };
inline bool thaiKey(const string& k) {
    if (k.empty() || k.size() % 3) return false;
    for (size_t i = 0; i < k.size(); i += 3) {
        unsigned char a = k[i], b = k[i + 1], c = k[i + 2];
        if (a != 0xe0 || (b != 0xb8 && b != 0xb9) || c < 0x80 || c > 0xbf) return false;
        int u = (b == 0xb8 ? 0xe00 : 0xe40) + (c & 0x3f);
        if (u < 0xe01 || u > 0xe5b) return false;
    }
    return true;
}
inline Source parseSource(const string& t) {
    Source s; size_t p = 0;
    while (p < t.size()) {
        size_t q = t.find('\n', p); string l = t.substr(p, q == string::npos ? string::npos : q - p);
        p = q == string::npos ? t.size() : q + 1;
        size_t tab = l.find('\t');
        if (l.size() > 254 || tab == string::npos || !thaiKey(l.substr(0, tab))) { s.wellFormed = false; continue; }
        s.ent[l.substr(0, tab)] = l.substr(tab + 1);
        s.order.emplace_back(l.substr(0, tab), l.substr(tab + 1));
    }
    return s;
}

// A pronunciation: alternatives separated by ';', syllables by ',', each five codes, '@' and
// where in the key the syllable ends.  Ends increase up to the length of the key; an end of
// -(100 * begin + end) stands for the first of two syllables that share the letters from
// begin to end.  Characters behind the number do not count.  norm: the same, tidied.
inline bool wellFormedPron(const string& d, int len, string& norm) {
    norm.clear(); size_t a = 0;
    while (true) {
        size_t e = d.find(';', a); string alt = d.substr(a, e == string::npos ? e : e - a);
        vector<long> ends; size_t b = 0;
        while (true) {
            size_t f = alt.find(',', b); string y = alt.substr(b, f == string::npos ? f : f - b);
            static const char* const CODES[] = {"kcgjJydtTnbpPfmrlwsh?", "_rlw", "aAiIvVuUeExXyYzZtToOcCwW", "_ktpgnmyw", "01234"};
            if (y.size() < 5) return false;
            for (int i = 0; i < 5; ++i) if (string(CODES[i]).find(y[i]) == string::npos) return false;
            long end = -1;
            if (y.size() > 6 && y[5] == '@') {
                char* q; string t = y.substr(6); errno = 0; end = strtol(t.c_str(), &q, 10);
                if (q == t.c_str() || errno || end > 0x7fffffffL || end < -0x80000000L) return false;
            }
            ends.push_back(end); norm += y.substr(0, 5) + "@" + std::to_string(end);
            if (f == string::npos) break;
            norm += ","; b = f + 1;
        }
        long at = 0;
        for (size_t i = 0; i < ends.size(); ++i) {
            if (ends[i] >= 0) { if (ends[i] <= at || ends[i] > len) return false; at = ends[i]; }
            else if (i + 1 == ends.size() || ends[i + 1] <= at || ends[i + 1] > len || ends[i] != -(at * 100 + ends[i + 1])) return false;
        }
        if (at != len) return false;
        if (e == string::npos) return true;
        norm += ";"; a = e + 1;
    }
}

#endif
