// gen.cc - seeded generators of plans
#include "plan.h"
#include <errno.h>
#include <stdlib.h>
#include <algorithm>
#include <set>
using namespace std;

static string u8(int c) {
    string r;
    if (c < 0x80) r += (char) c;
    else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | ((c >> 6) & 63)); r += (char) (0x80 | (c & 63)); }
    else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | ((c >> 12) & 63)); r += (char) (0x80 | ((c >> 6) & 63)); r += (char) (0x80 | (c & 63)); }
    return r;
}
static const char* const REAL[] = {
    "กา", "มา", "เกษตร", "ภูมิ", "เพชร", "ราชคฤห์", "เชาวนะ", "ไทรอยด์", "สามารถ", "ปรารถนา", "ได้", "น้ำ", "กระเช้า", "ทราย", "ประวัติ", "เพลา", "ตากลม",
    "สระ", "เสมา", "แหน", "พระ", "จักรวรรดิ", "กรรม", "ธรรม", "พรรค", "วรรณคดี", "ศาสตร์", "จันทร์", "ศุกร์", "ฤดู", "ฤกษ์", "พฤกษา", "อังกฤษ", "ทฤษฎี", "ฤา", "ฦาชา",
    "บริษัท", "ตลาด", "สนุก", "ขนม", "ถนน", "สบาย", "อร่อย", "องุ่น", "เฉลิม", "แสดง", "โตนด", "ไสว", "เสวย", "ผลไม้", "คุณภาพ", "สุขภาพ", "ประชาชน", "รัฐบาล", "มหาวิทยาลัย",
    "เปล่า", "เล่น", "แข็ง", "เร็ว", "เย็น", "เงิน", "เดิน", "เธอ", "เทอม", "เกลือ", "เสือ", "เรือ", "เมีย", "เปี๊ยะ", "ผัวะ", "ก๊วย", "เตี๋ยว", "โต๊ะ", "เกาะ", "เพาะ", "เพราะ", "เคาะ",
    "ก็", "ณ", "ธ", "บ่", "ฯ", "ๆ", "กก", "กด", "กมล", "มรดก", "สมุด", "สกปรก", "ผจญภัย", "พ.ศ.", "ก.ก.", "รร.", "ด.ช.", "เอ็ม.", "ดร.", "อ.เมือง",
    "เป็น", "อยู่", "อย่า", "อย่าง", "อยาก", "หมา", "หนา", "หลวง", "หญิง", "หรือ", "ทราบ", "สร้าง", "จริง", "เศร้า", "ไซร้", "ศรี", "สระแก้ว", "ขวา", "กวาง", "ความ", "ควาย", "กลม", "ปลา", "พลอย", "ตรง",
    "การ์ตูน", "คอมพิวเตอร์", "อินเทอร์เน็ต", "เบียร์", "โทรศัพท์", "แท็กซี่", "ฟุตบอล", "ไมโครโฟน", "แอปเปิล", "โอเค"};
static const int NREAL = sizeof REAL / sizeof *REAL;

static string cons(Rng& r) {
    static const int common[] = {0xe01, 0xe02, 0xe04, 0xe07, 0xe08, 0xe0a, 0xe14, 0xe15, 0xe17, 0xe19, 0xe1a, 0xe1b, 0xe1e, 0xe21, 0xe22, 0xe23, 0xe25, 0xe27, 0xe2a, 0xe2b, 0xe2d};
    if (r.chance(75)) return u8(common[r.below(21)]);
    int c; do c = 0xe01 + r.below(0x2e); while (c == 0xe24 || c == 0xe26);
    return u8(c);
}
static string syllable(Rng& r) {
    string C = cons(r), F = r.chance(60) ? cons(r) : "", T;
    if (r.chance(25)) T = u8(0xe48 + r.below(4));
    if (r.chance(15)) C += cons(r);
    switch (r.below(20)) {
    case 0: return C + u8(0xe30);                       // ะ
    case 1: case 2: return C + T + u8(0xe32) + F;       // า
    case 3: return C + u8(0xe34 + r.below(4)) + T + F;
    case 4: return C + u8(0xe38 + r.below(2)) + T + F;
    case 5: return C + u8(0xe31) + T + (F.empty() ? cons(r) : F);
    case 6: return u8(0xe40) + C + T + F;
    case 7: return u8(0xe40) + C + T + u8(0xe32) + (r.chance(50) ? u8(0xe30) : "");
    case 8: return u8(0xe41) + C + T + F;
    case 9: return u8(0xe42) + C + T + F;
    case 10: return u8(0xe43 + r.below(2)) + C + T;
    case 11: return u8(0xe40) + C + u8(0xe35) + T + u8(0xe22) + F;
    case 12: return u8(0xe40) + C + u8(0xe37) + T + u8(0xe2d) + F;
    case 13: return C + u8(0xe31) + T + u8(0xe27);
    case 14: return C + T + u8(0xe33);
    case 15: return C + u8(0xe23) + u8(0xe23) + F;
    case 16: return C + u8(0xe24) + F;
    case 17: return u8(0xe40) + C + u8(0xe47) + (F.empty() ? cons(r) : F);
    case 18: return C + T + u8(0xe2d) + F;
    default: return C + F;
    }
}
static string thaiWord(Rng& r) {
    if (r.chance(35)) return REAL[r.below(NREAL)];
    string w; int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) w += syllable(r);
    if (r.chance(8)) w += cons(r) + u8(0xe4c);
    return w;
}
static string soup(Rng& r) { string w; int n = r.range(1, 5); for (int i = 0; i < n; ++i) w += u8(0xe01 + r.below(0x5b)); return w; }
static string ascii(Rng& r) {
    static const char* W[] = {"hello", "a", "ABC", "123", "3.14", "\"q\"", "back\\slash", "'", "x y", " ", "  ", "\t", ",", ";", ":", "(x)", "[1]", "{}", "%d%s%n", "-n", "--", "...", ".", "#", "@", "_", "/etc/passwd", "a\rb", "\r"};
    return W[r.below(sizeof W / sizeof *W)];
}
static string exotic(Rng& r) {
    static const int C[] = {0xe9, 0xdf, 0x3b1, 0x416, 0x5d0, 0x4e2d, 0x3042, 0x1f600, 0x1f1f9, 0xfeff, 0x200b, 0x2028, 0xfffd, 0xffff, 0x10ffff, 0xe50, 0xe59, 0xe3f, 0xe4f, 0xe5a, 0xe5b, 0xe46, 0xe2f, 0xe3a, 0xe4d, 0xe00, 0xe5c, 0xe7f, 0xe80};
    string s; int n = r.range(1, 3); for (int i = 0; i < n; ++i) s += u8(C[r.below(sizeof C / sizeof *C)]);
    return s;
}
static string invalidBytes(Rng& r) {
    static const char* B[] = {"\xff", "\xfe", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\xb8", "\xe0", "\xe0\xb8\x41", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xf0\x9f\x98", "\xf8\x88\x80\x80\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xe0\xb8\xe0\xb8\x81"};
    string s = B[r.below(sizeof B / sizeof *B)];
    if (r.chance(50)) s = thaiWord(r) + s;
    if (r.chance(50)) s += thaiWord(r);
    return s;
}
static string line(Rng& r, bool weird, bool invalid) {
    if (invalid && r.chance(18)) return invalidBytes(r);
    if (!weird) return thaiWord(r);
    switch (r.below(14)) {
    case 0: return "";
    case 1: return soup(r);
    case 2: return ascii(r);
    case 3: return exotic(r);
    case 4: return ascii(r) + thaiWord(r) + ascii(r);
    case 5: return thaiWord(r) + " " + thaiWord(r);
    case 6: return string(r.chance(50) ? "." : " ") + thaiWord(r) + (r.chance(50) ? "." : "");
    case 7: return cons(r) + "." + cons(r) + ".";
    case 8: { static const int LV[] = {0xe40, 0xe41, 0xe42, 0xe43, 0xe44}; return (r.chance(50) ? thaiWord(r) : string()) + u8(LV[r.below(5)]); }
    case 9: { string z = thaiWord(r); if (r.chance(30)) z += string(1, '\0') + thaiWord(r); return z; }
    case 10: { string w = thaiWord(r); return w.size() > 3 ? w.substr(3 * r.below(w.size() / 3)) : w; }
    default: return thaiWord(r);
    }
}

// many short words; the n-th depends on the seed and n alone
vector<string> massWords(const string& spec) {
    unsigned long long seed = 0, from = 0, n = 0; sscanf(spec.c_str(), "%llu:%llu:%llu", &seed, &from, &n);
    vector<string> v; v.reserve(n);
    for (uint64_t i = 0; i < n; ++i) { Rng r(comb(seed, from + i)); v.push_back(r.chance(90) ? syllable(r) : r.chance(60) ? soup(r) : r.chance(50) ? ascii(r) : invalidBytes(r)); if (v.back().size() > 24) v.back() = "x"; }
    return v;
}

// --------------------------------------------------------------- dictionaries
static size_t nch(const string& k) { return k.size() / 3; }
static string sylCode(Rng& r) {
    static const char IC[] = "kcgjJydtTnbpPfmrlwsh?", SC[] = "____rlw", VW[] = "aAiIvVuUeExXoOcCyYzZtTwW", EC[] = "_ktpgnmyw", TN[] = "01234";
    string s; s += IC[r.below(21)]; s += SC[r.below(7)]; s += VW[r.below(24)]; s += EC[r.below(9)]; s += TN[r.below(5)];
    return s;
}
static string pronunciation(Rng& r, size_t len) {
    // strictly increasing end positions, last one = len
    vector<size_t> ends; size_t p = 0;
    while (p < len) { p += 1 + r.below(4); if (p > len) p = len; ends.push_back(p); }
    string s; for (auto e : ends) { if (!s.empty()) s += ","; s += sylCode(r) + "@" + to_string(e); }
    return s;
}
vector<pair<string, string>> bulkEntries(const string& spec) {
    size_t c = spec.find(':'), d = spec.find(':', c + 1);
    Rng r(strtoull(spec.c_str(), nullptr, 10)); int n = atoi(spec.c_str() + c + 1), len = atoi(spec.c_str() + d + 1);
    vector<pair<string, string>> v; v.reserve(n);
    for (int i = 0; i < n; ++i) {
        string k;
        if (i && r.chance(3)) k = v[r.below(v.size())].first;
        else { if (i && r.chance(20)) k = v[r.below(v.size())].first; int m = r.range(2, 4); for (int q = 0; q < m; ++q) k += r.chance(70) ? cons(r) : u8(0xe01 + r.below(0x5b)); while (k.size() > 60) k = k.substr(0, k.size() - 3); }
        string p = pronunciation(r, nch(k)); while ((int) p.size() < len) { string q = p + ";" + pronunciation(r, nch(k)); if (q.size() + k.size() > 250) break; p = q; }
        v.emplace_back(k, p);
    }
    return v;
}
// size of the data: now and then beyond what 15 or 16 bits count
static void bulk(Rng& r, Op& o, vector<string>& keys) {
    static const int N[] = {150, 300, 800, 1500, 2500}; static const int D[] = {8, 20, 60, 120};
    static const int HUGE_N[] = {4096, 5000, 8192, 16384, 20000, 32768}; bool huge = r.chance(4);
    string spec = to_string(r.below(100000)) + ":" + to_string((huge ? HUGE_N[r.below(6)] : N[r.below(5)]) + r.below(40)) + ":" + to_string(huge ? 8 : D[r.below(4)]);
    o.add("bulk", spec);
    auto v = bulkEntries(spec); for (int i = 0; i < 12; ++i) keys.push_back(v[r.below(v.size())].first);
    keys.push_back(v.front().first); keys.push_back(v.back().first);
}
static string keyOf(Rng& r, const vector<string>& prev) {
    if (!prev.empty() && r.chance(30)) {                     // relatives of earlier keys
        const string& b = r.pick(prev);
        switch (r.below(4)) {
        case 0: return b;                                    // duplicate
        case 1: { string k = b + cons(r); if (r.chance(40)) k += u8(0xe32); return k; }
        case 2: return b.size() > 3 ? b.substr(0, 3 * (1 + r.below(nch(b) - 1))) : b + cons(r);
        default: { string k = b; size_t i = 3 * r.below(nch(k)); return k.substr(0, i) + cons(r) + k.substr(i + 3); }
        }
    }
    string k;
    if (r.chance(4)) {                                       // as long as a line allows
        size_t n = 3 * r.range(10, 81); bool syl = r.chance(50);
        while (k.size() < n) k += syl ? syllable(r) : u8(0xe01 + r.below(0x5b));
        return k.substr(0, n);
    }
    switch (r.below(5)) {
    case 0: k = cons(r) + u8(0xe32); break;
    case 1: { int n = r.range(1, 4); for (int i = 0; i < n; ++i) k += syllable(r); break; }
    case 2: { int n = r.range(1, 6); for (int i = 0; i < n; ++i) k += u8(0xe01 + r.below(0x5b)); break; }
    default: do k = REAL[r.below(NREAL)]; while (k.find('.') != string::npos);
    }
    return k;
}
static string entry(Rng& r, vector<string>& keys) {
    string k = keyOf(r, keys); while (k.size() > 243) k = k.substr(0, k.size() - 3);
    keys.push_back(k);
    string d = pronunciation(r, nch(k));
    while (r.chance(15) && d.size() < 80) d += ";" + pronunciation(r, nch(k));
    string e = k + "\t" + d;
    if (e.size() > 250) e = k + "\t" + sylCode(r) + "@" + to_string(nch(k));
    return e;
}
// another word of that length, said nearly the same: one syllable of the data differs, often the last
static string relative(Rng& r, const string& e, vector<string>& keys) {
    size_t tab = e.find('\t'); string k = e.substr(0, tab), d = e.substr(tab + 1);
    if (!k.empty() && r.chance(85)) { size_t i = 3 * r.below(nch(k)); k = k.substr(0, i) + cons(r) + k.substr(i + 3); }
    vector<size_t> at; for (size_t i = 5; i < d.size(); ++i) if (d[i] == '@') at.push_back(i - 5);
    if (!at.empty()) { size_t i = r.chance(60) ? at.back() : r.pick(at); if (r.chance(50)) d.replace(i, 5, sylCode(r)); else d[i + 4] = '0' + r.below(5); }
    keys.push_back(k); return k + "\t" + d;
}
// entries whose pronunciations differ from what the rules give, so that use of the dictionary shows
static void addEntries(Rng& r, Op& o, vector<string>& keys, int n) { for (int i = 0; i < n; ++i) o.add("e", entry(r, keys)); }
static int dictSize(Rng& r) { switch (r.below(10)) { case 0: return r.chance(30) ? 0 : 1; case 1: return r.range(40, 120); case 2: return r.range(15, 40); default: return r.range(1, 12); } }

// an installed default dictionary that says something else about the same keys
static void decoy(Rng& r, Plan& p, const vector<string>& keys, const string& path = "/sim/share/except.dic") {
    Op d("dict"); d.add("path", path);
    set<string> u(keys.begin(), keys.end());
    for (auto& k : u) if (r.chance(80)) d.add("e", k + "\t" + sylCode(r) + "@" + to_string(nch(k)));
    p.ops.push_back(d);
}

// the same keys with other data of the same length: a file of the same size
static Op twin(Rng& r, const Op& d, const string& path) {
    Op t("dict"); t.add("path", path);
    for (auto e : d.all("e")) {
        size_t tab = e.find('\t');
        if (tab != string::npos && r.chance(80)) for (size_t i = tab + 1; i + 1 < e.size(); ++i) if (e[i + 1] == '@' && e[i] >= '0' && e[i] <= '4') e[i] = '0' + (e[i] - '0' + 1 + r.below(4)) % 5;
        t.add("e", e);
    }
    for (auto& b : d.all("bulk")) t.add("bulk", b);
    return t;
}

// text that exercises keys: keys, extended, cut, concatenated
static string textOver(Rng& r, const vector<string>& keys) {
    if (keys.empty()) return thaiWord(r);
    string s = r.pick(keys);
    switch (r.below(6)) {
    case 0: return s;
    case 1: return s + thaiWord(r);
    case 2: return s + r.pick(keys);
    case 3: return cons(r) + u8(0xe32) + s;
    case 4: return s.size() > 3 ? s.substr(0, s.size() - 3) : s;
    default: return s;
    }
}

// --------------------------------------------------------------- knobs and faults
static void knobs(Rng& r, Op& o, bool files, bool in, bool out) {
    static const int BLK[] = {16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096};
    if (files && r.chance(70)) o.add("blk", BLK[r.below(10)]);
    if (in && r.chance(50)) o.add("ib", BLK[r.below(10)]);
    if (out && r.chance(50)) o.add("ob", BLK[r.below(10)]);
    static const int MX[] = {1, 2, 3, 7, 16, 61, 300};
    auto k = [&](const char* n) { o.add(n, to_string(MX[r.below(7)]) + ":" + to_string(r.below(1000000))); };
    if (files && r.chance(40)) k("rs");
    if ((out || files) && r.chance(40)) k("ws");
    if (in && r.chance(60)) k("cs");
    if (in && r.chance(25)) o.add("line", 1);
}
static string flt(const string& cls, const string& at, uint32_t fr, int err, bool sticky, long long part = -1, const string& act = "") {
    string s = "cls=" + cls; if (!at.empty()) s += ",at=" + at;
    s += ",fr=" + to_string(fr);
    if (act.empty()) s += ",err=" + to_string(err); else s += ",act=" + act;
    if (sticky && err != EINTR && err != EAGAIN) s += ",sticky";     // these two pass
    if (part >= 0) s += ",part=" + to_string(part);
    return s;
}
static int pickErr(Rng& r, const vector<int>& v) { return r.pick(v); }
static uint32_t edgeFrac(Rng& r) { return r.chance(25) ? 999999 : r.chance(20) ? 0 : r.frac(); }
static string readFault(Rng& r, const string& at) { return flt("read", at, edgeFrac(r), pickErr(r, {EIO, EIO, ESTALE, EISDIR, EINTR}), r.chance(50)); }
static string openFault(Rng& r, const string& at) { return flt("open", at, 0, pickErr(r, {ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOMEM}), true); }
static string writeFault(Rng& r, const string& at, bool pipe) { return flt("write", at, edgeFrac(r), pipe ? pickErr(r, {EPIPE, EIO, ENOSPC, EINTR, EAGAIN}) : pickErr(r, {ENOSPC, EIO, EDQUOT, EFBIG, EINTR}), r.chance(60), r.chance(50) ? (long long) r.below(300) : -1); }
static string closeFault(Rng& r, const string& at) { return flt("close", at, 0, pickErr(r, {EIO, ENOSPC, EDQUOT}), true); }
static string phrase(Rng& r) { string t; int n = r.range(2, 3); for (int i = 0; i < n; ++i) t += REAL[r.below(NREAL)]; return t; }     // words run together: where the breaks are matters
static string allocFault(Rng& r) {
    if (r.chance(25)) return "cls=alloc,nth=" + to_string(r.below(16)) + ",err=" + to_string(ENOMEM) + (r.chance(25) ? ",sticky" : "");     // one of the first
    return flt("alloc", "", edgeFrac(r), ENOMEM, r.chance(40));
}
static string killFault(Rng& r, const string& at) {
    if (r.chance(60)) return flt("write", at, edgeFrac(r), 0, false, r.chance(60) ? (long long) r.below(200) : -1, "kill");
    return flt("any", "", edgeFrac(r), 0, false, -1, r.chance(50) ? "kill" : "killafter");
}

static string outs(Rng& r) { static const char* O[] = {"", "w", "t", "r", "p", "s", "tr", "wt", "trpws", "rr", "sw"}; return O[r.below(11)]; }
static void pronOpts(Rng& r, Op& o, int brkPct) {
    o.add("o", outs(r)); int j = r.chance(60) ? 0 : r.range(1, 2); if (j) o.add("j", j);
    if (!r.chance(brkPct)) o.add("n", 1);
}
// A key with one thing wrong: a byte replaced, dropped or inserted, or an
// over-long encoding.  (The executor judges whether it is still well-formed.)
static string spoiledKey(Rng& r, const vector<string>& keys) {
    string k = keys.empty() || r.chance(40) ? string(REAL[r.below(20)]) : r.pick(keys);
    size_t i = r.below(k.size()), c = i / 3 * 3;
    switch (r.below(8)) {
    case 0: k[i] = (char) r.below(256); break;
    case 1: k[i] ^= 1 << r.below(8); break;
    case 2: k.erase(i, 1); break;
    case 3: k.insert(i, 1, (char) r.range(1, 255)); break;
    case 4: case 5: {                                                             // over-long form of a character
        if (c + 2 >= k.size()) break;
        int u = (k[c] & 15) << 12 | (k[c + 1] & 63) << 6 | (k[c + 2] & 63), n = r.range(4, 7); string e(n, 0);
        for (int q = n; q-- > 1; u >>= 6) e[q] = (char) (0x80 | (u & 63));
        e[0] = (char) (0xff << (8 - n)); k = k.substr(0, c) + e + k.substr(c + 3); break; }
    case 6: k.insert(c, r.chance(50) ? string("\xc0\x80") : string("\xe0\x80\x80")); break;   // over-long NUL
    default: k.insert(c, u8(r.chance(50) ? r.range(0x20, 0x7f) : r.chance(50) ? r.range(0xe5c, 0xf00) : r.range(0x80, 0xdff)));
    }
    for (auto& ch : k) if (ch == '\n' || ch == '\t' || ch == 0) ch = 'x';
    return k;
}
static string malformed(Rng& r, vector<string>& keys) {
    switch (r.below(16)) {
    case 13: { static const char* C[] = {"#", "# ", ";", "//", "!", "%", "-", "'", "\"", "\xef\xbb\xbf", " ", "\\"}; return C[r.below(12)] + thaiWord(r) + "\tk_A_0@2"; }
    case 14: return r.chance(30) ? string("\r") : r.chance(50) ? "#" + thaiWord(r) : "# comment";
    case 15: { string k = REAL[r.below(10)]; return k + " \tk_A_0@2"; }
    case 8: return r.chance(60) ? string() : string(r.range(1, 3), ' ');          // blank line
    case 9: case 10: case 11: return spoiledKey(r, keys) + "\tk_A_0@1";
    case 12: { string k = REAL[r.below(10)]; return k + "\t" + string(255 - 1 - k.size() + r.below(3), 'x'); }   // around the limit
    case 0: return thaiWord(r) + " " + "k_A_0@2";                             // no TAB
    case 1: return string("\xff\xfe") + thaiWord(r) + "\tk_A_0@2";
    case 2: return thaiWord(r).substr(0, 2) + "\tk_A_0@1";                    // cut character
    case 3: return "abc\tk_A_0@3";
    case 4: { string k = REAL[r.below(10)]; return k + "\t" + string(300 + r.below(900), 'x'); }
    case 5: { string k = REAL[r.below(10)], d = "k_A_0@2"; while (d.size() < 250) d += ",k_A_0@9"; return k + "\t" + d + "\tk_A_0@2"; }   // over-long, with a TAB in the overhang
    case 6: return u8(0x4e2d) + "\tk_A_0@1";
    default: return cons(r) + "\x80\tk_A_0@1";
    }
    (void) keys;
}
// data that is not a pronunciation: stored and looked up like any other
static vector<string> oddKeys;
static string oddEntry(Rng& r) {
    string k = "\xe0\xb8\xa6\xe0\xb9\x85"; for (int i = r.below(4); i-- > 0;) k += cons(r);
    string d = sylCode(r) + "@" + to_string(nch(k));
    switch (r.below(9)) {
    case 0: d = ""; break;
    case 1: d += "\r"; break;
    case 2: d += " "; break;
    case 3: d = " " + d; break;
    case 4: d += "\t" + sylCode(r); break;
    case 5: d = "#" + d; break;
    case 6: d = thaiWord(r); break;
    case 7: d = string(r.range(40, 220), "xyz;,@"[r.below(6)]); break;
    default: d += string(1, (char) r.range(128, 255));
    }
    oddKeys.push_back(k); return k + "\t" + d;
}
static const int BULK = 3;      // percentage of big dictionaries
static Op srcOp(Rng& r, const string& path, vector<string>& keys, bool allowBad) {
    Op s("src"); s.add("path", path); oddKeys.clear();
    if (r.chance(BULK)) bulk(r, s, keys);
    bool odd = r.chance(12), kin = r.chance(30);
    int n = dictSize(r), bad = allowBad && r.chance(35) ? (int) r.below(n + 1) : -1;
    for (int i = 0; i <= n; ++i) { if (i == bad) s.add("m", malformed(r, keys)); if (i < n) { if (odd && r.chance(20)) { s.add("e", oddEntry(r)); continue; } string e = entry(r, keys); s.add("e", e); while (kin && r.chance(40)) { e = relative(r, e, keys); s.add("e", e); } } }
    if (r.chance(5) && !keys.empty()) {   // long, but still fitting, line
        string k = keys.back(), d = pronunciation(r, nch(k)); int lim = 254 - (int) k.size() - 1;
        while ((int) d.size() + 1 + (int) nch(k) * 0 < lim - 60) d += ";" + pronunciation(r, nch(k));
        if ((int) d.size() <= lim) s.add("e", k + "\t" + d);
    }
    if (r.chance(4)) {                    // a line that fits exactly, or nearly
        string k = "\xe0\xb8\xa6\xe0\xb9\x85"; k += cons(r);
        oddKeys.push_back(k); s.add("e", k + "\t" + string(r.range(250, 254) - k.size() - 1, 'x'));
    }
    if (r.chance(25)) s.add("nl", 0);
    return s;
}

// --------------------------------------------------------------- per property
static Plan genC01(Rng& r) {
    Plan p; vector<string> keys; int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
        string in = "/w/s" + to_string(i) + ".tsv", out = "/w/d" + to_string(r.below(2)) + ".dic";
        p.ops.push_back(srcOp(r, in, keys, true));
        Op g("gen"); g.add("in", r.chance(3) ? "/w/none.tsv" : in).add("out", out); knobs(r, g, true, false, false);
        int nf = r.chance(15) ? 0 : r.chance(85) ? 1 : 2;
        for (int k = 0; k < nf; ++k) switch (r.below(11)) {
            case 0: g.add("f", openFault(r, r.chance(50) ? in : out)); break;
            case 1: case 2: g.add("f", readFault(r, in)); break;
            case 3: case 4: case 5: case 6: g.add("f", writeFault(r, out, false)); break;
            case 7: g.add("f", closeFault(r, out)); break;
            default: g.add("f", allocFault(r));
        }
        p.ops.push_back(g);
    }
    return p;
}

static Plan genC02(Rng& r) {
    Plan p; vector<string> keys;
    p.ops.push_back(srcOp(r, "/w/s.tsv", keys, false));
    Op g("gen"); g.add("in", "/w/s.tsv").add("out", "/w/d.dic"); knobs(r, g, true, false, false); p.ops.push_back(g);
    Op l("lib"); knobs(r, l, true, false, false); p.ops.push_back(l);
    bool ctor = r.chance(50);
    { Op o("dnew"); o.add("d", 0); if (ctor) o.add("path", "/w/d.dic"); p.ops.push_back(o); }
    if (!ctor || r.chance(30)) p.ops.push_back(Op("dopen").add("d", 0).add("path", "/w/d.dic"));
    int n = r.range(4, 24);
    for (int i = 0; i < n; ++i) {
        string t = textOver(r, keys); int pos = 0;
        // look-up texts: BMP only
        if (r.chance(40)) { string pre = thaiWord(r); pre.erase(remove(pre.begin(), pre.end(), '.'), pre.end()); pos = nch(pre); t = pre + t; }
        if (r.chance(10)) t += "abc";
        p.ops.push_back(Op("dlook").add("d", 0).add("w", t).add("pos", pos));
    }
    for (auto& k : oddKeys) p.ops.push_back(Op("dlook").add("d", 0).add("w", k).add("pos", 0));
    set<string> uniq(keys.begin(), keys.end()); vector<string> u(uniq.begin(), uniq.end());
    if (u.size() <= 20 || r.chance(20)) for (auto& k : u) p.ops.push_back(Op("dlook").add("d", 0).add("w", k).add("pos", 0));
    for (int i = 0; i < 3 && !u.empty(); ++i) { Op e("exact"); e.add("d", "/w/d.dic").add("l", r.pick(u)); knobs(r, e, true, false, true); p.ops.push_back(e); }
    return p;
}

static void someLines(Rng& r, Op& o, const vector<string>& keys, int n) { for (int i = 0; i < n; ++i) o.add("l", r.chance(65) ? textOver(r, keys) : thaiWord(r)); }

static Plan genC03(Rng& r) {
    Plan p; vector<string> keys;
    string path = r.chance(15) ? "/sim/share/except.dic" : "/w/d.dic";
    Op d("dict"); d.add("path", path); if (r.chance(BULK)) bulk(r, d, keys); addEntries(r, d, keys, max(1, dictSize(r))); p.ops.push_back(d);
    if (path[1] == 'w' && r.chance(50)) decoy(r, p, keys);
    int kind = r.below(12); bool cli = r.chance(60);
    vector<string> faults;
    switch (kind) {
    case 0: p.ops.push_back(Op("rm").add("path", path)); break;
    case 1: p.ops.push_back(Op("dir").add("path", path)); break;
    case 2: { string j; int n = r.range(0, 400); for (int i = 0; i < n; ++i) j += (char) r.below(256); p.ops.push_back(Op("put").add("path", path).add("data", j)); break; }
    case 3: { string j; int n = r.range(1, 60); for (int i = 0; i < n; ++i) j += thaiWord(r) + "\tk_A_0@2\n"; p.ops.push_back(Op("put").add("path", path).add("data", j)); break; }
    case 4: if (r.chance(30)) p.ops.push_back(Op("put").add("path", path).add("from", "thbrk")); else p.ops.push_back(Op("put").add("path", path).add("data", string(r.range(1, 64), r.chance(50) ? '\0' : '\xff'))); break;
    case 5: case 6: p.ops.push_back(Op("cut").add("path", path).add("fr", r.frac())); break;
    case 7: p.ops.push_back(Op("cut").add("path", path).add("end", 1 + r.below(r.chance(50) ? 3 : 60))); break;
    case 8: faults.push_back(openFault(r, path)); break;
    case 9: case 10: faults.push_back(readFault(r, path)); break;
    case 11: if (r.chance(60)) {     // an index whose data does not fill the announced size
            string w; uint32_t n = r.chance(50) ? 0x80000000u | (uint32_t) r.next() : r.chance(50) ? 1 + r.below(5000) : (uint32_t) (r.next() & 0x7fffffff);
            for (int i = 24; i >= 0; i -= 8) w += (char) (n >> i);
            uint32_t k = r.chance(40) ? 0 : r.below(max<uint32_t>(1, min<uint32_t>(n & 0x7fffffff, 4000))); for (uint32_t i = 0; i < k; ++i) w += r.chance(10) ? '\0' : "k_a2@1,;"[r.below(8)];
            p.ops.push_back(Op("tail").add("path", path).add("data", w)); break;
        }
        break;         // intact: control
    default: break;
    }
    if (cli) {
        int n = r.range(1, 2);
        for (int i = 0; i < n; ++i) {
            Op o("pron"); pronOpts(r, o, 10); if (path[1] == 'w') o.add("d", path);
            o.add("mode", r.chance(40) ? "argv" : "stdin"); someLines(r, o, keys, r.range(1, 4)); knobs(r, o, true, false, false);
            for (auto& f : faults) o.add("f", f);
            p.ops.push_back(o);
        }
    } else {
        Op l("lib"); knobs(r, l, true, false, false); p.ops.push_back(l);
        if (r.chance(60)) {
            bool ctor = r.chance(30);
            Op n("new"); n.add("p", 0).add("brk", r.chance(10)); if (ctor) { n.add("path", path); for (auto& f : faults) n.add("f", f); } p.ops.push_back(n);
            if (!ctor) { Op o("load"); o.add("p", 0).add("path", path); for (auto& f : faults) o.add("f", f); p.ops.push_back(o); }
            int k = r.range(1, 5); for (int i = 0; i < k; ++i) p.ops.push_back(Op("parse").add("p", 0).add("w", textOver(r, keys)));
        } else {
            p.ops.push_back(Op("dnew").add("d", 0));
            Op o("dopen"); o.add("d", 0).add("path", path); for (auto& f : faults) o.add("f", f); p.ops.push_back(o);
            int k = r.range(1, 5); for (int i = 0; i < k; ++i) p.ops.push_back(Op("dlook").add("d", 0).add("w", textOver(r, keys)).add("pos", 0));
        }
    }
    return p;
}

static Plan genC04(Rng& r) {
    Plan p; vector<string> keys; string out = "/w/d.dic";
    int nsrc = r.range(1, 2); vector<string> srcs;
    for (int i = 0; i < nsrc; ++i) { srcs.push_back("/w/s" + to_string(i) + ".tsv"); vector<string> k2; p.ops.push_back(srcOp(r, srcs[i], k2, false)); for (auto& k : k2) keys.push_back(k); }
    if (r.chance(30)) decoy(r, p, keys);
    if (r.chance(20)) { string j; int n = r.range(1, 3000); for (int i = 0; i < n; ++i) j += (char) r.below(256); p.ops.push_back(Op("put").add("path", out).add("data", j)); }
    else if (r.chance(40)) { Op g("gen"); g.add("in", r.pick(srcs)).add("out", out); p.ops.push_back(g); }
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Op g("gen"); string in = r.pick(srcs); g.add("in", in).add("out", out); knobs(r, g, true, false, false);
        if (r.chance(75)) g.add("f", killFault(r, out)); else g.add("f", r.chance(70) ? writeFault(r, out, false) : r.chance(50) ? readFault(r, in) : closeFault(r, out));
        p.ops.push_back(g);
        if (r.chance(80)) { Op o("pron"); o.add("o", outs(r)).add("n", 1).add("d", out).add("mode", "stdin"); someLines(r, o, keys, r.range(1, 3)); p.ops.push_back(o); }
        if (r.chance(20)) { vector<string> k2; p.ops.push_back(srcOp(r, in, k2, false)); for (auto& k : k2) keys.push_back(k); }
    }
    Op g("gen"); g.add("in", r.pick(srcs)).add("out", out); knobs(r, g, true, false, false); p.ops.push_back(g);
    Op o("pron"); o.add("o", "w").add("n", 1).add("d", out).add("mode", "stdin"); someLines(r, o, keys, r.range(1, 3)); p.ops.push_back(o);
    return p;
}

// one file that changes between loads, often unnoticeably from outside
static Plan genReload(Rng& r) {
    Plan p; vector<string> keys; vector<string> v{"/w/d.dic", "/w/twin.dic"};
    Op d("dict"); d.add("path", v[0]); addEntries(r, d, keys, r.range(1, 4)); p.ops.push_back(d); p.ops.push_back(twin(r, d, v[1]));
    if (r.chance(40)) { Op e("dict"); e.add("path", "/w/e.dic"); for (auto& k : keys) e.add("e", k + "\t" + pronunciation(r, nch(k))); p.ops.push_back(e); v.push_back("/w/e.dic"); }
    Op l("lib"); if (r.chance(30)) knobs(r, l, true, false, false); p.ops.push_back(l);
    string at = "/w/d.dic"; bool par = r.chance(60);
    if (par) { Op o("new"); o.add("p", 0).add("brk", 0); if (r.chance(50)) o.add("path", at); p.ops.push_back(o); } else { Op o("dnew"); o.add("d", 0); if (r.chance(50)) o.add("path", at); p.ops.push_back(o); }
    auto load = [&] { Op o(par ? "load" : "dopen"); o.add(par ? "p" : "d", 0).add("path", at); if (r.chance(12)) o.add("f", r.chance(40) ? openFault(r, at) : readFault(r, at)); p.ops.push_back(o); };
    auto look = [&] { if (par) p.ops.push_back(Op("parse").add("p", 0).add("w", r.chance(70) ? r.pick(keys) : textOver(r, keys))); else p.ops.push_back(Op("dlook").add("d", 0).add("w", textOver(r, keys)).add("pos", 0)); };
    int n = r.range(2, 5);
    for (int i = 0; i < n; ++i) {
        load(); if (r.chance(60)) look();
        if (!par && r.chance(10)) p.ops.push_back(Op("dclose").add("d", 0));
        if (r.chance(10)) p.ops.push_back(Op("xrm").add("path", at));
        else { Op o("xcp"); o.add("path", r.pick(v)).add("to", at); if (r.chance(10)) o.add("fr", edgeFrac(r)); if (r.chance(50)) o.add("over", 1); if (r.chance(60)) o.add("st", 1); p.ops.push_back(o); }
        if (r.chance(40)) look();
        load(); look();
    }
    return p;
}
static Plan genC05(Rng& r) {
    if (r.chance(30)) return genReload(r);
    Plan p; vector<string> keys; vector<string> paths;
    int nd = r.range(2, 4);
    vector<string> shared; addEntries(r, *new Op("x"), shared, 3);
    for (int i = 0; i < nd; ++i) {
        string path = "/w/d" + to_string(i) + ".dic"; Op d("dict"); d.add("path", path); vector<string> k2 = shared;
        addEntries(r, d, k2, max(1, dictSize(r) / 2));
        for (auto& k : shared) if (r.chance(60)) d.add("e", k + "\t" + pronunciation(r, nch(k)));      // same key, different data
        for (auto& k : k2) keys.push_back(k);
        p.ops.push_back(d); paths.push_back(path);
        if (i == 0 && r.chance(60)) { p.ops.push_back(twin(r, d, "/w/twin.dic")); paths.push_back("/w/twin.dic"); if (r.chance(50)) { paths.push_back(path); paths.push_back("/w/twin.dic"); } }
    }
    if (r.chance(25)) decoy(r, p, keys);
    paths.push_back("/w/none.dic");
    if (r.chance(60)) { p.ops.push_back(Op("cp").add("path", paths[0]).add("to", "/w/cut.dic")); p.ops.push_back(Op("cut").add("path", "/w/cut.dic").add("fr", edgeFrac(r))); paths.push_back("/w/cut.dic"); }
    if (r.chance(40)) { p.ops.push_back(Op("put").add("path", "/w/junk.dic").add("data", "not a dictionary")); paths.push_back("/w/junk.dic"); }
    Op l("lib"); knobs(r, l, true, false, false); p.ops.push_back(l);
    int np = r.range(1, 2), ndo = r.range(0, 2), n = r.range(6, 40);
    for (int i = 0; i < np; ++i) { Op o("new"); o.add("p", i).add("brk", r.chance(6)); if (r.chance(30)) o.add("path", r.pick(paths)); p.ops.push_back(o); }
    for (int i = 0; i < ndo; ++i) { Op o("dnew"); o.add("d", i); if (r.chance(30)) o.add("path", r.pick(paths)); p.ops.push_back(o); }
    bool moving = r.chance(40);      // files change between loads
    for (int i = 0; i < n; ++i) {
        string path = r.pick(paths);
        if (moving && r.chance(15)) {
            string to = r.pick(paths);
            if (r.chance(20)) p.ops.push_back(Op("xrm").add("path", to));
            else { Op o("xcp"); o.add("path", path).add("to", to); if (r.chance(15)) o.add("fr", edgeFrac(r)); if (r.chance(30)) o.add("over", 1); if (r.chance(50)) o.add("st", 1); p.ops.push_back(o); }
            if (r.chance(60)) { if (ndo && r.chance(40)) p.ops.push_back(Op("dopen").add("d", r.below(ndo)).add("path", to)); else p.ops.push_back(Op("load").add("p", r.below(np)).add("path", to)); }
            continue;
        }
        if (ndo && r.chance(45)) {
            int d = r.below(ndo);
            switch (r.below(10)) {
            case 0: case 1: case 2: { Op o("dopen"); o.add("d", d).add("path", path); if (r.chance(25)) o.add("f", r.chance(30) ? openFault(r, path) : readFault(r, path)); p.ops.push_back(o); break; }
            case 3: p.ops.push_back(Op("dclose").add("d", d)); break;
            case 4: p.ops.push_back(Op("ddel").add("d", d)); { Op o("dnew"); o.add("d", d); p.ops.push_back(o); } break;
            default: p.ops.push_back(Op("dlook").add("d", d).add("w", textOver(r, keys)).add("pos", 0));
            }
        } else {
            int q = r.below(np);
            switch (r.below(10)) {
            case 0: case 1: case 2: case 3: { Op o("load"); o.add("p", q).add("path", path); if (r.chance(25)) o.add("f", r.chance(30) ? openFault(r, path) : readFault(r, path)); p.ops.push_back(o); break; }
            default: p.ops.push_back(Op("parse").add("p", q).add("w", textOver(r, keys)));
            }
        }
    }
    return p;
}

static Plan genC06(Rng& r) {
    Plan p; vector<string> keys; string path;
    int dk = r.below(4);
    if (dk) { path = "/w/d.dic"; Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 2)); p.ops.push_back(d); }
    if (dk && r.chance(25)) decoy(r, p, keys);
    int runs = r.chance(70) ? 1 : 2;
    vector<pair<string, string>> ls;
    int n; bool weird = r.chance(75), invalid = r.chance(35);
    switch (r.below(10)) { case 0: n = r.range(40, 150); break; case 1: n = 1; break; default: n = r.range(2, 14); }
    for (int i = 0; i < n; ++i) {
        if (!ls.empty() && r.chance(12)) { ls.push_back(ls[r.below(ls.size())]); continue; }
        if (!ls.empty() && r.chance(6)) { ls.push_back(ls.back()); continue; }
        if (r.chance(1)) { static const char* U[] = {"กา", "มา ", "ดี.", "น้ำ ", "x กา", "เปล่า", "ไป,", "พ.ศ. "}; static const int N[] = {20, 43, 86, 100, 171, 250, 342}; ls.emplace_back("L", to_string(N[r.below(7)] + r.below(3)) + "*" + U[r.below(8)]); continue; }
        if (r.chance(1) && r.chance(30)) { ls.emplace_back("L", to_string((r.chance(50) ? 131072 : r.chance(50) ? 300000 : 1048576) + r.below(3)) + "*x"); continue; }
        if (r.chance(1) && r.chance(3)) { ls.emplace_back("M", to_string(r.range(65500, 70000)) + "*" + (r.chance(50) ? "" : "x")); continue; }
        if (r.chance(3)) { static const char* U[] = {"a", "ab ", "x", "12,", "\xc3\xa9"}; static const int N[] = {255, 256, 257, 1000, 1023, 1024, 4095, 4096, 8191, 9000, 20000, 70000}; ls.emplace_back("L", to_string(N[r.below(12)] + r.below(3)) + "*" + U[r.below(5)]); continue; }
        if (r.chance(2)) { ls.emplace_back("M", to_string(r.chance(15) ? r.range(1000, 5000) : r.range(20, 300)) + "*" + (r.chance(50) ? string("x") : line(r, false, false))); continue; }
        string t = r.chance(25) ? textOver(r, keys) : line(r, weird, invalid);
        if (r.chance(ls.empty() ? 15 : 1)) t = "\xef\xbb\xbf" + t;
        switch (r.below(40)) { case 0: t += "\r"; break; case 1: t = " " + t; break; case 2: t += " "; break; case 3: t = "\t" + t; break; case 4: t += string(1, '\0'); break; case 5: t += "\x1a"; break; }
        ls.emplace_back("l", t);
    }
    string os = outs(r); int j = r.chance(60) ? 0 : r.range(1, 2); bool nb = !r.chance(10);
    for (int k = 0; k < runs; ++k) {
        Op o("pron"); o.add("o", os); if (j) o.add("j", j); if (nb) o.add("n", 1); if (!path.empty()) o.add("d", path);
        o.add("mode", runs == 2 ? (k ? "argv" : "stdin") : r.chance(20) ? "argv" : "stdin");
        if (r.chance(30)) o.add("mix", 1);
        for (auto& l : ls) o.kv.push_back(l);
        if (r.chance(30)) o.add("nl", 0);
        knobs(r, o, false, true, true);
        p.ops.push_back(o);
    }
    return p;
}

static Plan genC07(Rng& r) {
    Plan p; vector<string> keys; string path = "/w/d.dic";
    Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 3)); p.ops.push_back(d);
    Op o("pron"); pronOpts(r, o, 8); o.add("d", path); bool argv = r.chance(15); o.add("mode", argv ? "argv" : "stdin");
    int n = r.chance(15) ? r.range(20, 80) : r.range(1, 10);
    for (int i = 0; i < n; ++i) { if (r.chance(4)) o.add("L", to_string(r.range(300, 9000)) + "*x"); else o.add("l", r.chance(50) ? textOver(r, keys) : line(r, r.chance(40), false)); }
    if (r.chance(5)) o.add("M", to_string(r.range(100, 1000)) + "*" + thaiWord(r));
    if (r.chance(25)) o.add("nl", 0);
    knobs(r, o, false, true, true);
    int nf = r.chance(12) ? 0 : r.chance(85) ? 1 : 2;
    for (int k = 0; k < nf; ++k) switch (r.below(argv ? 5 : 10)) {
        case 0: case 1: case 2: case 3: o.add("f", writeFault(r, "stdout", r.chance(50))); break;
        case 4: o.add("f", allocFault(r)); break;
        default: o.add("f", flt("read", "stdin", edgeFrac(r), pickErr(r, {EIO, EIO, EISDIR, EBADF, EINTR, EAGAIN}), r.chance(60)));
    }
    p.ops.push_back(o);
    return p;
}

static Plan genC08(Rng& r) {
    Plan p; vector<string> keys; vector<string> paths;
    if (r.chance(8)) {      // a great many words, in two orders
        if (r.chance(40)) { Op d("dict"); d.add("path", "/w/d.dic"); addEntries(r, d, keys, 5); for (auto& w : massWords(to_string(r.below(1000)) + ":0:20")) if (w.size() >= 6 && w[0] == '\xe0' && nch(w) * 3 == w.size()) d.add("e", w + "\t" + sylCode(r) + "@" + to_string(nch(w))); p.ops.push_back(d); }
        int n = r.chance(40) ? r.range(200, 3000) : r.chance(80) ? r.range(3000, 20000) : 70000;
        Op o("mass"); o.add("words", to_string(r.below(1000)) + ":0:" + to_string(n)); if (!keys.empty()) o.add("d", "/w/d.dic"); o.add("order", r.below(4)); p.ops.push_back(o);
        return p;
    }
    int nd = r.range(0, 2);
    for (int i = 0; i < nd; ++i) { string path = "/w/d" + to_string(i) + ".dic"; Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 2)); p.ops.push_back(d); paths.push_back(path); }
    Op l("lib"); p.ops.push_back(l);
    int np = r.range(1, 3); bool brk = r.chance(20);
    for (int i = 0; i < np; ++i) { Op o("new"); o.add("p", i).add("brk", brk && r.chance(50)); if (!paths.empty() && r.chance(60)) o.add("path", r.pick(paths)); p.ops.push_back(o); }
    // a pool of words that resemble each other
    vector<string> pool; int k = r.range(2, 12); bool invalid = r.chance(30);
    for (int i = 0; i < k; ++i) {
        if (pool.empty() || r.chance(40)) pool.push_back(r.chance(40) ? textOver(r, keys) : line(r, r.chance(50), invalid));
        else {
            string b = r.pick(pool);
            switch (r.below(6)) {
            case 0: b += thaiWord(r); break;
            case 1: if (b.size() >= 6) b = b.substr(0, b.size() - 3); break;
            case 2: if (b.size() >= 6) b = b.substr(3); break;
            case 3: if (b.size() >= 3) { size_t q = 3 * r.below(b.size() / 3); b = b.substr(0, q) + cons(r) + b.substr(q + 3); } break;
            case 4: b = thaiWord(r) + b; break;
            default: if (b.size() >= 6) { size_t h = b.size() / 6 * 3; b = b.substr(h) + b.substr(0, h); }
            }
            if (b.size() < 60) pool.push_back(b);
        }
    }
    int n = r.chance(3) ? r.range(1200, 2500) : r.chance(15) ? r.range(100, 400) : r.range(6, 60);
    for (int i = 0; i < n; ++i) {
        if (r.chance(10)) { Op o("fmt"); int m = r.range(1, 4); for (int q = 0; q < m; ++q) o.add("y", pronunciation(r, r.range(1, 8))); p.ops.push_back(o); continue; }
        if (r.chance(2)) { p.ops.push_back(Op("load").add("p", r.below(np)).add("path", paths.empty() || r.chance(30) ? "/w/none.dic" : r.pick(paths))); continue; }
        if (r.chance(1)) { int q = r.below(np); p.ops.push_back(Op("del").add("p", q)); p.ops.push_back(Op("new").add("p", q).add("brk", 0)); continue; }
        Op o("parse"); o.add("p", r.below(np)); if (r.chance(1)) o.add("L", to_string(r.range(300, 3000)) + "*x"); else o.add("w", r.pick(pool));
        if (r.chance(3)) o.add("f", allocFault(r));
        p.ops.push_back(o);
    }
    return p;
}

static Plan genC10(Rng& r) {
    Plan p; vector<string> keys; vector<string> paths; int nd = r.range(1, 2);
    for (int i = 0; i < nd; ++i) { string path = "/w/d" + to_string(i) + ".dic"; Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 3)); p.ops.push_back(d); paths.push_back(path); }
    Op l("lib"); bool three = r.chance(60); if (three) l.add("rounds", 3); p.ops.push_back(l);
    int np = r.range(1, 2), n = r.range(3, 14); bool seg = false;
    for (int i = 0; i < np; ++i) { Op o("new"); bool brk = r.chance(15); seg |= brk; o.add("p", i).add("brk", brk); if (r.chance(30)) { o.add("path", r.pick(paths)); if (r.chance(40)) o.add("f", allocFault(r)); } p.ops.push_back(o); }
    if (r.chance(50)) p.ops.push_back(Op("dnew").add("d", 0));
    for (int i = 0; i < n; ++i) {
        switch (r.below(12)) {
        case 0: case 1: { Op o("load"); o.add("p", r.below(np)).add("path", r.pick(paths)); if (r.chance(60)) o.add("f", allocFault(r)); p.ops.push_back(o); break; }
        case 2: { Op o("dopen"); o.add("d", 0).add("path", r.pick(paths)); if (r.chance(60)) o.add("f", allocFault(r)); p.ops.push_back(o); break; }
        case 3: { Op o("dlook"); o.add("d", 0).add("w", textOver(r, keys)).add("pos", 0); if (r.chance(50)) o.add("f", allocFault(r)); p.ops.push_back(o); break; }
        case 4: { Op o("fmt"); int m = r.range(1, 3); for (int q = 0; q < m; ++q) o.add("y", pronunciation(r, r.range(1, 6))); if (r.chance(60)) o.add("f", allocFault(r)); p.ops.push_back(o); break; }
        default: { Op o("parse"); o.add("p", r.below(np)).add("w", seg && r.chance(70) ? phrase(r) : r.chance(60) ? textOver(r, keys) : line(r, r.chance(30), false)); if (r.chance(60)) o.add("f", allocFault(r)); p.ops.push_back(o); }
        }
    }
    return p;
}

static Plan genC11(Rng& r) {
    Plan p; vector<string> keys, paths; int nd = r.range(1, 3);
    for (int i = 0; i < nd; ++i) { string path = "/w/d" + to_string(i) + ".dic"; Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 2)); p.ops.push_back(d); paths.push_back(path); }
    paths.push_back("/w/none.dic");
    if (r.chance(70)) { p.ops.push_back(Op("cp").add("path", paths[0]).add("to", "/w/cut.dic")); p.ops.push_back(Op("cut").add("path", "/w/cut.dic").add("fr", edgeFrac(r))); paths.push_back("/w/cut.dic"); }
    if (r.chance(40)) { p.ops.push_back(Op("put").add("path", "/w/junk.dic").add("data", r.chance(50) ? "junk" : "")); paths.push_back("/w/junk.dic"); }
    if (r.chance(30)) { p.ops.push_back(Op("dir").add("path", "/w/dir.dic")); paths.push_back("/w/dir.dic"); }
    Op l("lib"); l.add("rounds", 3); knobs(r, l, true, false, false); p.ops.push_back(l);
    int n = r.range(4, 30);
    for (int i = 0; i < n; ++i) {
        string path = r.pick(paths); int q = r.below(3);
        string flt1 = r.chance(20) ? (r.chance(30) ? openFault(r, path) : readFault(r, path)) : "";
        auto wf = [&](Op o) { if (!flt1.empty()) o.add("f", flt1); p.ops.push_back(o); };
        switch (r.below(13)) {
        case 0: { Op o("new"); o.add("p", q).add("brk", r.chance(10)); if (r.chance(50)) o.add("path", path); wf(o); break; }
        case 1: p.ops.push_back(Op("new").add("p", q).add("brk", 0)); break;
        case 2: case 3: wf(Op("load").add("p", q).add("path", path)); break;
        case 4: p.ops.push_back(Op("del").add("p", q)); break;
        case 5: { Op o("dnew"); o.add("d", q); if (r.chance(50)) o.add("path", path); wf(o); break; }
        case 6: case 7: wf(Op("dopen").add("d", q).add("path", path)); break;
        case 8: p.ops.push_back(Op(r.chance(50) ? "dclose" : "ddel").add("d", q)); break;
        case 9: p.ops.push_back(Op("dlook").add("d", q).add("w", textOver(r, keys)).add("pos", 0)); break;
        case 10: { Op o("fmt"); int m = r.range(1, 3); for (int k = 0; k < m; ++k) o.add("y", pronunciation(r, r.range(1, 6))); p.ops.push_back(o); break; }
        default: p.ops.push_back(Op("parse").add("p", q).add("w", r.chance(60) ? textOver(r, keys) : line(r, r.chance(60), true)));
        }
    }
    return p;
}

static Plan genC12(Rng& r) {
    Plan p; vector<string> keys; string path = "/w/d.dic";
    Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 2)); p.ops.push_back(d);
    static const char* TH = "/usr/share/libthai/thbrk.tri";
    string f; bool pre = true;
    switch (r.below(8)) {
    case 0: p.ops.push_back(Op("nothbrk")); break;
    case 1: p.ops.push_back(Op("cutthbrk").add("fr", r.frac())); break;
    case 2: p.ops.push_back(Op("cutthbrk").add("fr", r.chance(50) ? 999990 + r.below(10) : r.below(3000))); break;
    case 3: { string j; int n = r.range(0, 200); for (int i = 0; i < n; ++i) j += (char) r.below(256); p.ops.push_back(Op("junkthbrk").add("data", j)); break; }
    case 4: f = openFault(r, TH); pre = false; break;
    case 5: case 6: f = readFault(r, TH); pre = false; break;
    default: pre = false;
    }
    (void) pre;
    if (r.chance(60)) {
        Op o("pron"); o.add("o", outs(r)); int j = r.chance(60) ? 0 : r.range(1, 2); if (j) o.add("j", j);
        if (r.chance(70)) o.add("d", path); o.add("mode", r.chance(40) ? "argv" : "stdin");
        int n = r.range(1, 5); for (int i = 0; i < n; ++i) o.add("l", r.chance(30) ? textOver(r, keys) : r.chance(60) ? thaiWord(r) + thaiWord(r) : line(r, true, false));
        if (!f.empty()) o.add("f", f);
        p.ops.push_back(o);
    } else {
        p.ops.push_back(Op("lib"));
        Op o("new"); o.add("p", 0).add("brk", 1); if (r.chance(50)) o.add("path", path); if (!f.empty()) o.add("f", f); p.ops.push_back(o);
        if (r.chance(50)) p.ops.push_back(Op("load").add("p", 0).add("path", path));
        int n = r.range(1, 8); for (int i = 0; i < n; ++i) p.ops.push_back(Op("parse").add("p", 0).add("w", r.chance(30) ? textOver(r, keys) : r.chance(60) ? thaiWord(r) + thaiWord(r) : line(r, true, true)));
    }
    return p;
}

static Plan genC13(Rng& r) {
    Plan p; vector<string> keys; string path = "/w/d.dic";
    Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 3)); p.ops.push_back(d);
    Op o("pron"); pronOpts(r, o, 8); if (r.chance(80)) o.add("d", path); o.add("mode", "stdin");
    int n = r.chance(15) ? r.range(20, 120) : r.range(1, 12); bool invalid = r.chance(25), weird = r.chance(60);
    for (int i = 0; i < n; ++i) { if (r.chance(4)) o.add("L", to_string(r.range(300, 9000)) + "*x"); else if (r.chance(3)) o.add("M", to_string(r.range(2, 200)) + "*" + thaiWord(r)); else o.add("l", r.chance(40) ? textOver(r, keys) : line(r, weird, invalid)); }
    if (r.chance(25)) o.add("nl", 0);
    knobs(r, o, false, true, true);
    p.ops.push_back(o);
    return p;
}

static Plan genC14(Rng& r) {
    Plan p; vector<string> keys; Op o("errp");
    auto ef = [&] { return flt("write", "stderr", edgeFrac(r), pickErr(r, {EIO, EPIPE, ENOSPC, EBADF, EAGAIN, EINTR}), r.chance(60), r.chance(30) ? (long long) r.below(60) : -1); };
    if (r.chance(40)) {
        string in = "/w/s.tsv", out = "/w/d.dic";
        p.ops.push_back(srcOp(r, in, keys, false)); Op& s = p.ops.back();
        int bad = r.range(0, 3); for (int i = 0; i < bad; ++i) s.kv.insert(s.kv.begin() + 1 + r.below(s.kv.size()), {"m", malformed(r, keys)});
        if (r.chance(20)) { Op d("dict"); d.add("path", out); addEntries(r, d, keys, 3); p.ops.push_back(d); }
        o.add("prog", "gen");
        if (!r.chance(5)) o.add("a", r.chance(10) ? "/w/none.tsv" : in); if (!r.chance(5)) o.add("a", out); if (r.chance(4)) o.add("a", "x");
        knobs(r, o, true, false, false);
        if (r.chance(40)) o.add("f", r.chance(30) ? openFault(r, r.chance(50) ? in : out) : r.chance(50) ? readFault(r, in) : r.chance(60) ? writeFault(r, out, false) : closeFault(r, out));
    } else {
        string path = "/w/d.dic"; Op d("dict"); d.add("path", path); addEntries(r, d, keys, r.range(1, 8)); p.ops.push_back(d);
        o.add("prog", "pron");
        int k = r.below(5); if (k == 0) p.ops.push_back(Op("rm").add("path", path)); else if (k == 1) p.ops.push_back(Op("cut").add("path", path).add("fr", r.frac())); 
        if (r.chance(90)) o.add("a", "-d" + path);
        if (r.chance(85)) o.add("a", "-n");
        for (char ch : outs(r)) o.add("a", string("-") + ch);
        if (r.chance(15)) { static const char* X[] = {"-x", "-d", "--help", "--version", "-V", "-h", "--foo", "-", "-j", "-g"}; o.add("a", X[r.below(10)]); }
        int n = r.range(1, 8); bool argv = r.chance(30);
        for (int i = 0; i < n; ++i) { string t = r.chance(40) ? invalidBytes(r) : r.chance(50) ? textOver(r, keys) : line(r, true, true); if (t.find('\n') != string::npos) continue; o.add(argv ? "a" : "l", t); }
        knobs(r, o, true, true, true);
        if (r.chance(30)) o.add("f", r.chance(40) ? flt("read", "stdin", edgeFrac(r), EIO, r.chance(60)) : r.chance(70) ? writeFault(r, "stdout", true) : readFault(r, path));
    }
    int nf = r.chance(85) ? 1 : 2; for (int i = 0; i < nf; ++i) o.add("ef", ef());
    p.ops.push_back(o);
    return p;
}

static Plan genC15(Rng& r) {
    Plan p; vector<string> keys; int n = r.range(2, 4), srcs = r.range(1, 2); bool anyGen = false;
    static const char* DIR[] = {"/w/", "/w/", "/w/a/", ""};
    string dir = DIR[r.below(4)];
    for (int i = 0; i < srcs; ++i) { p.ops.push_back(srcOp(r, dir + "s" + to_string(i) + ".tsv", keys, false)); }
    Op d("dict"); d.add("path", dir + "d.dic"); addEntries(r, d, keys, r.range(1, 10)); p.ops.push_back(d);
    for (int i = 0; i < n; ++i) {
        Op o("job"); bool gen = r.chance(60) || (i == n - 1 && !anyGen && r.chance(80)); anyGen |= gen;
        if (gen) {
            o.add("prog", "gen"); o.add("in", dir + "s" + to_string(r.below(srcs)) + ".tsv");
            string out = dir + (r.chance(50) ? "o" + to_string(i) + ".dic" : "o" + to_string(i)); o.add("out", out);
            if (r.chance(25)) { Op e("dict"); e.add("path", out); addEntries(r, e, keys, r.range(1, 6)); p.ops.insert(p.ops.begin(), e); }
            knobs(r, o, true, false, true);
            if (r.chance(30)) o.add("f", r.chance(50) ? killFault(r, r.chance(70) ? out : "") : r.chance(50) ? writeFault(r, out, false) : r.chance(50) ? openFault(r, out) : closeFault(r, out));
        } else {
            o.add("prog", "pron"); o.add("a", "-d" + dir + "d.dic"); if (r.chance(80)) o.add("a", "-n");
            for (char ch : outs(r)) o.add("a", string("-") + ch);
            int m = r.range(1, 8); for (int k = 0; k < m; ++k) o.add("l", r.chance(60) ? textOver(r, keys) : line(r, false, false));
            knobs(r, o, true, true, true);
        }
        p.ops.push_back(o);
    }
    static const int Q[] = {1, 1, 2, 4, 12, 50};
    p.ops.push_back(Op("par").add("seed", r.next() >> 1).add("q", Q[r.below(6)]));
    return p;
}

// a dictionary rebuilt while it is read
static Plan genC21(Rng& r) {
    Plan p; vector<string> keys; string d = r.chance(80) ? "/w/d.dic" : "d.dic", in = "/w/s.tsv";
    int big = r.chance(50) ? r.range(1, 8) : r.range(20, 120);
    Op e("dict"); bool had = r.chance(88);
    if (had) { e.add("path", d); addEntries(r, e, keys, big); p.ops.push_back(e); }
    if (had && r.chance(55)) {      // the same keys with other readings, and perhaps more keys
        Op s = twin(r, e, in); s.name = "src"; if (r.chance(30)) addEntries(r, s, keys, r.range(1, 6));
        p.ops.push_back(s);
    } else p.ops.push_back(srcOp(r, in, keys, r.chance(15)));
    Op g("job"); g.add("prog", "gen"); knobs(r, g, true, false, true);
    if (r.chance(30)) g.add("f", r.chance(60) ? killFault(r, r.chance(70) ? d : "") : writeFault(r, d, false));
    p.ops.push_back(g);
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Op o("job"); o.add("prog", "pron"); if (r.chance(85)) o.add("n", 1); o.add("o", outs(r)); if (r.chance(20)) o.add("j", r.range(1, 2));
        int m = r.range(1, 8); for (int k = 0; k < m; ++k) o.add("l", r.chance(85) && !keys.empty() ? keys[r.below(keys.size())] : r.chance(60) ? textOver(r, keys) : line(r, false, false));
        knobs(r, o, true, true, true); p.ops.push_back(o);
    }
    static const int Q[] = {1, 3, 6, 12, 25, 50, 100};
    p.ops.push_back(Op("race").add("d", d).add("in", in).add("seed", r.next() >> 1).add("q", Q[r.below(7)]));
    return p;
}

// a pronunciation that is damaged, or unusual but well-formed
static string badPron(Rng& r, size_t len) {
    static const char* const WHOLE[] = {"", " ", ";", ",", "@", "@1", "-", "k_A_0", "k_A_0@", "k_A_0@;", "*_A_0@1", "k_*_0@1", "k_A_*@1", "foo", "k_A", "k", "\xe0\xb8\x81", "k_A_0@x", "k_A_0@-", "k_A_0@99999999999", "k_A_0@-99999999999999999999", "k_A_0@2147483647", "k_A_0@-2147483648", "k_A_0@0"};
    if (r.chance(15)) return WHOLE[r.below(sizeof WHOLE / sizeof *WHOLE)];
    string d = pronunciation(r, len); while (r.chance(25) && d.size() < 60) d += ";" + pronunciation(r, len);
    if (r.chance(10)) {      // one number that is right but for some high bits
        size_t at = d.find('@', r.below(d.size())); if (at == string::npos) at = d.find('@');
        size_t e = d.find_first_of(",;", at); static const long long K[] = {256, 65536, 4294967296ll, 8589934592ll, -256, -65536, -4294967296ll};
        return d.substr(0, at + 1) + to_string(atoll(d.c_str() + at + 1) + K[r.below(7)]) + (e == string::npos ? "" : d.substr(e));
    }
    if (len >= 2 && r.chance(25)) { int b = r.below(len - 1), e = r.range(b + 1, len); if (r.chance(30)) { b += r.range(-1, 1); e += r.range(-1, 1); }      // two syllables on the same letters
        d = (b > 0 ? sylCode(r) + "@" + to_string(b) + "," : "") + sylCode(r) + "@" + to_string(-(b * 100 + e)) + "," + sylCode(r) + "@" + to_string(e) + (e < (int) len ? "," + sylCode(r) + "@" + to_string(len) : ""); }
    static const char SET[] = "kcgjJydtTnbpPfmrlwsh?_aAiIvVuUeExXyYzZoOcCW01234*@@,,;;-+ 56789\r\x80\xff";
    int n = r.below(4);
    for (int i = 0; i < n && !d.empty(); ++i) {
        size_t at = r.below(d.size());
        switch (r.below(6)) {
        case 0: d[at] = SET[r.below(sizeof SET - 1)]; break;
        case 1: d.erase(at, 1); break;
        case 2: d.insert(at, 1, SET[r.below(sizeof SET - 1)]); break;
        case 3: d.resize(at); break;
        case 4: { size_t q = d.find('@', at); if (q == string::npos) break; size_t e = d.find_first_of(",;", q); string num; switch (r.below(8)) { case 0: num = "0"; break; case 1: num = to_string(len + 1); break; case 2: num = "-" + to_string(r.below(1200)); break; case 3: num = r.chance(30) ? "99999999999" : to_string((long long) len + (r.chance(50) ? 4294967296ll : 65536) * r.range(-2, 2)); break; case 4: num = " " + to_string(len); break; case 5: num = "+" + to_string(len); break; case 6: num = to_string(r.range(1, 9)); break; default: num = to_string(len) + "\r"; }
            d = d.substr(0, q + 1) + num + (e == string::npos ? "" : d.substr(e)); break; }
        default: d += r.chance(50) ? ";" + d.substr(0, at) : "," + d.substr(0, at);
        }
    }
    return d;
}
static Plan genC22(Rng& r) {
    Plan p; vector<string> keys; string path = r.chance(10) ? "/sim/share/except.dic" : "/w/d.dic", other = "/w/o.dic";
    Op d("dict"); d.add("path", path); int n = max(2, dictSize(r)); int pct = r.chance(40) ? 0 : r.range(10, 90);
    for (int i = 0; i < n; ++i) {
        string e = entry(r, keys); size_t tab = e.find('\t');
        if (r.chance(pct)) { string b = badPron(r, nch(keys.back())); if (tab + 1 + b.size() <= 250) e = e.substr(0, tab + 1) + b; }
        d.add("e", e);
    }
    p.ops.push_back(d);
    Op b("bank"); b.add("path", path);
    if (!pct || r.chance(30)) {
        if (r.chance(20)) { Op x("dict"); x.add("path", other); vector<string> k2; addEntries(r, x, k2, max(1, dictSize(r) / 2)); p.ops.push_back(x); b.add("from", other); }
        if (r.chance(15)) b.add("cut", edgeFrac(r));
        static const char SET[] = "k_A0@,;-1a9* \x00\x00\x01\t\n\xff";
        int m = r.chance(20) ? r.range(10, 60) : r.range(0, 6); for (int i = 0; i < m; ++i) b.add("set", to_string(edgeFrac(r)) + ":" + to_string(r.chance(50) ? (int) r.below(256) : (unsigned char) SET[r.below(sizeof SET - 1)]));
        if (r.chance(10)) b.add("ext", r.chance(50) ? string(1, '\0') : "x");
    }
    p.ops.push_back(b);
    if (path[1] == 'w' && r.chance(40)) decoy(r, p, keys);
    int runs = r.range(1, 2);
    for (int i = 0; i < runs; ++i) {
        Op o("pron"); if (path[1] == 'w') o.add("d", path); pronOpts(r, o, 15); if (r.chance(15)) o.add("mode", "argv"); someLines(r, o, keys, r.range(2, 16)); for (int q = 0; q < 3; ++q) o.add("l", r.pick(keys));
        knobs(r, o, true, true, true); p.ops.push_back(o);
    }
    if (r.chance(30)) {
        Op l("lib"); knobs(r, l, true, false, false); p.ops.push_back(l);
        p.ops.push_back(Op("new").add("p", 0).add("brk", 0).add("path", path)); int m = r.range(1, 12);
        for (int i = 0; i < m; ++i) { if (r.chance(10)) p.ops.push_back(Op("load").add("p", 0).add("path", r.chance(70) ? path : "/w/none.dic")); p.ops.push_back(Op("parse").add("p", 0).add("w", r.chance(60) ? r.pick(keys) : textOver(r, keys))); }
    }
    return p;
}

// files that are nobody's business
static void bystanders(Rng& r, Plan& p, const string& out) {
    static const char* N[] = {"/w/other.tsv", "/w/other.dic", "/w/x", "/w/README", "/w/a/d.dic", "/tmp/x.dic", "except.dic", "core", "/w/.hidden", "/w/d.dic.orig"};
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) { string f = N[r.below(10)]; if (f != out) p.ops.push_back(Op("put").add("path", f).add("data", thaiWord(r) + "\tk_A_0@2\n")); }
}
static Plan genC16(Rng& r) {
    Plan p; vector<string> keys; string in = "/w/s.tsv", out = "/w/d.dic", dict = "/w/e.dic";
    p.ops.push_back(srcOp(r, in, keys, r.chance(40)));
    { Op d("dict"); d.add("path", dict); addEntries(r, d, keys, r.range(1, 8)); p.ops.push_back(d); }
    if (r.chance(60)) { if (r.chance(30)) p.ops.push_back(Op("put").add("path", out).add("data", r.chance(20) ? string() : thaiWord(r))); else { Op d("dict"); d.add("path", out); vector<string> k2; addEntries(r, d, k2, r.range(1, 8)); p.ops.push_back(d); } }
    bystanders(r, p, out); if (r.chance(30)) decoy(r, p, keys);
    int n = r.range(1, 2);
    for (int i = 0; i < n; ++i) {
        Op o("tidy");
        if (r.chance(70)) {
            o.add("prog", "gen");
            if (!r.chance(4)) o.add("a", r.chance(12) ? "/w/none.tsv" : in); if (!r.chance(4)) o.add("a", out); if (r.chance(4)) o.add("a", r.chance(50) ? dict : "x");
            knobs(r, o, true, false, false);
            if (r.chance(70)) switch (r.below(8)) {
                case 0: o.add("f", flt("open", in, 0, pickErr(r, {EACCES, EMFILE, ENOENT, EIO}), true)); break;
                case 1: o.add("f", openFault(r, out)); break;
                case 2: o.add("f", readFault(r, in)); break;
                case 3: o.add("f", writeFault(r, out, false)); break;
                case 4: o.add("f", closeFault(r, out)); break;
                case 5: case 6: o.add("f", killFault(r, r.chance(60) ? out : "")); break;
                default: o.add("f", allocFault(r));
            }
        } else {
            o.add("prog", "pron"); if (r.chance(85)) o.add("a", "-d" + (r.chance(15) ? string("/w/none.dic") : dict)); if (r.chance(85)) o.add("a", "-n");
            for (char ch : outs(r)) o.add("a", string("-") + ch);
            if (r.chance(8)) { static const char* X[] = {"-x", "-d", "--help", "--version", "-V"}; o.add("a", X[r.below(5)]); }
            int m = r.range(0, 6); bool argv = r.chance(30); for (int k = 0; k < m; ++k) { string w = r.chance(50) ? textOver(r, keys) : line(r, true, true); if (w.find('\n') == string::npos) o.add(argv ? "a" : "l", w); }
            knobs(r, o, true, true, true);
            if (r.chance(60)) o.add("f", r.chance(30) ? killFault(r, r.chance(50) ? dict : "") : r.chance(30) ? readFault(r, dict) : r.chance(30) ? openFault(r, dict) : r.chance(50) ? writeFault(r, "stdout", true) : allocFault(r));
        }
        p.ops.push_back(o);
    }
    return p;
}

static Plan genC17(Rng& r) {
    Plan p; vector<string> keys; string path = "/w/d.dic"; Op o("same");
    if (r.chance(35)) {
        p.ops.push_back(srcOp(r, "/w/s.tsv", keys, r.chance(10)));
        if (r.chance(20)) { Op d("dict"); d.add("path", path); addEntries(r, d, keys, 3); p.ops.push_back(d); }
        o.add("prog", "gen").add("a", "/w/s.tsv").add("a", path); knobs(r, o, true, false, false);
    } else {
        Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 2)); p.ops.push_back(d);
        if (r.chance(30)) decoy(r, p, keys);
        if (r.chance(30)) decoy(r, p, keys, "/w/other.dic");
        o.add("prog", "pron"); if (r.chance(70)) o.add("a", "-d" + path); if (r.chance(70)) o.add("a", "-n");
        if (r.chance(25)) o.add("a", r.chance(50) ? "-j" : "-g");
        for (char ch : outs(r)) o.add("a", string("-") + ch);
        int n = r.range(1, 10); bool argv = r.chance(40); for (int i = 0; i < n; ++i) { string w = r.chance(40) ? textOver(r, keys) : line(r, r.chance(60), r.chance(15)); if (w.find('\n') == string::npos) o.add(argv ? "a" : "l", w); }
        knobs(r, o, true, true, true);
    }
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        string c; auto add = [&](const string& k, const string& v) { c += (c.empty() ? "" : ",") + k + "=" + v; };
        if (r.chance(60)) add("fill", to_string(r.range(1, 255)));
        if (r.chance(60)) add("pad", to_string(1 + r.below(1u << 30)));
        if (r.chance(30)) add("stack", to_string(r.below(150000)));
        if (r.chance(30)) add("pid", to_string(r.range(1, 4000000)));
        if (r.chance(20)) add("uid", to_string(r.chance(50) ? 0 : r.below(70000)));
        if (r.chance(30)) { static const uint64_t T[] = {1, 59, 3600, 86400, 86400 * 31, 31536000ull, 31536000ull * 9, 31536000ull * 14 + 86400 * 100}; add("late", to_string(T[r.below(8)] + r.below(5000))); }
        if (r.chance(30)) add("tty", to_string(r.below(64)));
        if (r.chance(30)) add("meta", to_string(1 + r.below(1u << 30)));
        if (r.chance(50)) add("any", to_string(1 + r.below(1u << 30)));
        if (r.chance(20)) add("rnd", to_string(r.below(1u << 30)));
        if (r.chance(15)) { static const char* X[] = {"/", "/tmp", "/home/user", "/w/a"}; add("cwd", X[r.below(4)]); }
        if (r.chance(15)) { static const char* X[] = {"/usr/bin/thpronun", "./thpronun", "pron", "lt-thpronun", "gen", ""}; add("name", X[r.below(6)]); }
        if (r.chance(15)) { static const char* X[] = {"512", "1024", "8192", "65536"}; add("blk", X[r.below(4)]); }
        if (r.chance(35)) { static const char* E[] = {"LANG=th_TH.UTF-8", "LC_ALL=C", "LC_ALL=th_TH.TIS-620", "LC_NUMERIC=de_DE", "TZ=Asia/Bangkok", "HOME=/root", "HOME=", "TMPDIR=/w", "POSIXLY_CORRECT=1", "DEBUG=1", "TERM=xterm-256color", "TERM=dumb", "NO_COLOR=1", "THPRONUN_DICT=/w/x.dic", "PWD=/x", "LANGUAGE=th", "LC_CTYPE=C.UTF-8", "SOURCE_DATE_EPOCH=1", "USER=nobody", "VERBOSE=1", "LC_ALL=tr_TR.UTF-8", "COLUMNS=10", "LC_ALL=C.UTF-8"}; int m = r.range(1, 4); for (int k = 0; k < m; ++k) add("env", E[r.below(23)]); }
        if (c.empty()) add("fill", "255");
        o.add("c", c);
    }
    p.ops.push_back(o);
    return p;
}

static Plan genC18(Rng& r) {
    Plan p; vector<string> keys; vector<string> paths; int nd = r.range(2, 3);
    vector<string> shared; addEntries(r, *new Op("x"), shared, 3);
    for (int i = 0; i < nd; ++i) {
        string path = "/w/d" + to_string(i) + ".dic"; Op d("dict"); d.add("path", path); vector<string> k2 = shared;
        if (r.chance(8)) bulk(r, d, k2);
        addEntries(r, d, k2, max(1, dictSize(r) / 2));
        for (auto& k : shared) if (r.chance(80)) d.add("e", k + "\t" + pronunciation(r, nch(k)));
        for (auto& k : k2) keys.push_back(k);
        p.ops.push_back(d); paths.push_back(path);
        if (i == 0 && r.chance(40)) { p.ops.push_back(twin(r, d, "/w/twin.dic")); paths.push_back("/w/twin.dic"); }
    }
    auto frac = [&] { return r.chance(50) ? 1000000 : (int) edgeFrac(r); };
    if (r.chance(65)) {
        Op o("pron"); pronOpts(r, o, 8); bool def = r.chance(15); if (def) p.ops.push_back(Op("cp").add("path", paths[0]).add("to", "/sim/share/except.dic")); else o.add("d", paths[0]);
        string path = def ? string("/sim/share/except.dic") : paths[0];
        o.add("mode", "stdin"); int n = r.range(2, 14);
        for (int i = 0; i < n; ++i) o.add("l", r.chance(75) ? textOver(r, keys) : line(r, r.chance(40), false));
        knobs(r, o, true, true, true); if (!o.find("line")) o.add("line", 1);
        int m = r.range(1, 3);
        for (int i = 0; i < m; ++i) {
            int k = r.below(4); string from = r.pick(paths);
            o.add("ch", to_string(r.chance(40) ? 0 : r.below(n)) + "," + to_string(k) + "," + (r.chance(90) ? path : string("/usr/share/libthai/thbrk.tri")) + "," + from + "," + to_string(k == 3 ? (int) edgeFrac(r) : frac()));
        }
        p.ops.push_back(o);
    } else {
        Op l("lib"); knobs(r, l, true, false, false); p.ops.push_back(l);
        int np = r.range(1, 2), ndo = r.range(0, 1), n = r.range(8, 30);
        for (int i = 0; i < np; ++i) { Op o("new"); o.add("p", i).add("brk", r.chance(6)); bool ct = r.chance(50); if (ct) o.add("path", r.pick(paths)); p.ops.push_back(o); if (!ct) p.ops.push_back(Op("load").add("p", i).add("path", r.pick(paths))); }
        for (int i = 0; i < ndo; ++i) p.ops.push_back(Op("dnew").add("d", i).add("path", r.pick(paths)));
        for (int i = 0; i < n; ++i) switch (r.below(10)) {
            case 0: p.ops.push_back(Op("xrm").add("path", r.pick(paths))); break;
            case 1: case 2: case 3: { Op o("xcp"); o.add("path", r.pick(paths)).add("to", r.pick(paths)); if (r.chance(60)) o.add("over", 1); if (r.chance(40)) o.add("fr", edgeFrac(r)); p.ops.push_back(o); break; }
            case 4: if (r.chance(20)) p.ops.push_back(Op("load").add("p", r.below(np)).add("path", r.pick(paths))); break;
            default: if (ndo && r.chance(40)) p.ops.push_back(Op("dlook").add("d", 0).add("w", textOver(r, keys)).add("pos", 0)); else p.ops.push_back(Op("parse").add("p", r.below(np)).add("w", textOver(r, keys)));
        }
    }
    return p;
}

static Plan genC09(Rng& r) {
    Plan p; vector<string> keys; int nt = r.chance(65) ? 2 : r.range(3, 4);
    bool dict = r.chance(60), brk = r.chance(20);
    if (dict) { Op d("dict"); d.add("path", "/w/d.dic"); addEntries(r, d, keys, max(1, dictSize(r) / 3)); p.ops.push_back(d); }
    vector<string> paths{"/w/none.dic"}; if (dict) paths.push_back("/w/d.dic");
    if (r.chance(40)) { Op d("dict"); d.add("path", "/w/e.dic"); addEntries(r, d, keys, r.range(1, 4)); for (auto& k : keys) if (r.chance(30)) d.add("e", k + "\t" + pronunciation(r, nch(k))); p.ops.push_back(d); paths.push_back("/w/e.dic"); paths.push_back("/w/e.dic"); }
    int life = r.chance(50) ? 0 : r.chance(50) ? 20 : 60;
    Op t("threads"); t.add("n", nt).add("brk", brk); if (dict) t.add("path", "/w/d.dic");
    t.add("own", r.chance(15)).add("fown", r.chance(20)); t.add("sched", r.below(1u << 30));
    int pol = r.chance(40) ? 0 : r.chance(60) ? 1 : 2; t.add("pol", pol);
    static const int P0[] = {20, 100, 500, 3000, 20000}, P1[] = {1, 2, 4, 10, 40, 200}; t.add("rate", pol ? P1[r.below(6)] : P0[r.below(5)]);
    t.add("warm", r.chance(30));
    p.ops.push_back(t);
    vector<string> pool; int k = r.range(1, 4); for (int i = 0; i < k; ++i) pool.push_back(r.chance(50) ? textOver(r, keys) : line(r, r.chance(40), r.chance(20)));
    for (int i = 0; i < nt; ++i) { int n = r.range(1, 4); for (int q = 0; q < n; ++q) {
        if (r.chance(life)) { Op o("tlife"); o.add("t", i).add("w", r.pick(pool)).add("brk", r.chance(20)); int m = r.below(3); for (int x = 0; x < m; ++x) o.add("path", r.pick(paths)); p.ops.push_back(o); }
        else p.ops.push_back(Op(r.chance(85) ? "tparse" : "tfmt").add("t", i).add("w", r.pick(pool)));
    } }
    return p;
}

static Plan genC20(Rng& r) {
    Plan p; vector<string> keys; string path = "/w/d.dic"; Op d("dict"); d.add("path", path); addEntries(r, d, keys, max(1, dictSize(r) / 3)); p.ops.push_back(d);
    Op o("grow"); pronOpts(r, o, 50); int k = r.below(10); if (k < 7) o.add("d", path); else if (k == 7) o.add("d", "/w/none.dic");
    if (r.chance(8)) o.add("words", to_string(r.below(100000)) + ":0:" + to_string(r.range(7000, 8000)));
    else { int n = r.range(1, 4); bool weird = r.chance(60), invalid = r.chance(40); for (int i = 0; i < n; ++i) o.add("l", r.chance(30) ? textOver(r, keys) : r.chance(10) ? string(r.range(20, 600), 'x') : line(r, weird, invalid)); }
    if (r.chance(50)) o.add("ob", r.chance(50) ? 512 : 4096); if (r.chance(30)) o.add("ws", to_string(r.range(30, 300)) + ":" + to_string(r.below(1000000)));
    if (r.chance(60)) o.add("line", 1); else o.add("cs", to_string(r.range(5, 60)) + ":" + to_string(r.below(1000000)));
    if (r.chance(20)) o.add("f", flt("write", "stderr", edgeFrac(r), pickErr(r, {EIO, EPIPE, ENOSPC}), r.chance(60)));
    p.ops.push_back(o);
    return p;
}

// builds of the shipped dictionary
static Op editList(Rng& r, vector<string>& keys, bool& broken) {
    Op o("list"); o.add("i", r.below(1000));
    if (broken && r.chance(60)) { o.add("repair", 1); broken = false; return o; }
    switch (r.below(12)) {
    case 0: case 1: case 2: { int n = r.range(1, 3); while (n--) o.add("e", entry(r, keys)); o.add("at", r.below(60)); break; }
    case 3: case 4: o.add("drop", r.below(80)); break;
    case 5: { o.add("e", malformed(r, keys)); o.add("at", r.below(60)); broken = true; break; }
    case 6: { static const int N[] = {40, 150, 400, 900}; o.add("bulk", to_string(r.below(100000)) + ":" + to_string(N[r.below(4)] + r.below(40)) + ":" + to_string(8 + r.below(60))); break; }
    case 7: o.add("clear", 1); break;
    case 8: o.add("cut", 1); break;
    case 9: o.add("twice", r.below(8)); break;
    case 10: o.add("drop", r.below(80)).add("e", entry(r, keys)); break;
    default: break;                                          // saved without a change
    }
    return o;
}
static Op makeOp(Rng& r, int faults) {
    Op o("make"); o.add("sched", r.below(1000000)); if (r.chance(25)) o.add("j", r.range(2, 4)); if (r.chance(15)) o.add("k", 1);
    while (faults--) {
        string f = "pg=" + to_string(r.frac()) + ",fr=" + to_string(r.frac());
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3: f += ",e=" + to_string(r.below(12)); if (r.chance(35)) f += ",sticky"; break;
        case 4: case 5: f += ",act=kill"; break;
        case 6: case 7: f += ",act=killall"; break;
        case 8: f += ",act=int"; break;
        default: f += ",act=term";
        }
        if (r.chance(30)) f += ",part=" + to_string(1 + r.below(r.chance(50) ? 60 : 5000));
        o.add("f", f);
    }
    return o;
}
static Plan genC19(Rng& r) {
    Plan p; vector<string> keys; bool broken = false; int rounds = r.range(1, 3);
    for (int i = 0; i < rounds; ++i) {
        if (r.chance(i ? 60 : 35)) { int n = r.range(1, 2); while (n--) p.ops.push_back(editList(r, keys, broken)); }
        if (i && r.chance(20)) p.ops.push_back(Op("lose").add("f", r.chance(50) ? "except.tsv" : "except.dic"));
        p.ops.push_back(makeOp(r, r.chance(80) ? 1 : r.chance(50) ? 2 : 0));
    }
    if (r.chance(30)) p.ops.push_back(editList(r, keys, broken));
    p.ops.push_back(makeOp(r, 0));
    if (broken) { Op o("list"); o.add("repair", 1); p.ops.push_back(o); p.ops.push_back(makeOp(r, 0)); }
    if (r.chance(20)) { p.ops.push_back(editList(r, keys, broken)); p.ops.push_back(makeOp(r, 0)); }
    return p;
}

Plan genPlan(const string& prop, uint64_t seed) {
    Rng r(comb(hash64(prop), seed));
    Plan p;
    if (prop == "C01") p = genC01(r); else if (prop == "C02") p = genC02(r); else if (prop == "C03") p = genC03(r);
    else if (prop == "C04") p = genC04(r); else if (prop == "C05") p = genC05(r); else if (prop == "C06") p = genC06(r);
    else if (prop == "C07") p = genC07(r); else if (prop == "C08") p = genC08(r); else if (prop == "C09") p = genC09(r);
    else if (prop == "C10") p = genC10(r); else if (prop == "C11") p = genC11(r); else if (prop == "C12") p = genC12(r);
    else if (prop == "C13") p = genC13(r); else if (prop == "C14") p = genC14(r); else if (prop == "C15") p = genC15(r);
    else if (prop == "C16") p = genC16(r); else if (prop == "C17") p = genC17(r); else if (prop == "C18") p = genC18(r);
    else if (prop == "C19") p = genC19(r); else if (prop == "C20") p = genC20(r); else if (prop == "C21") p = genC21(r); else if (prop == "C22") p = genC22(r);
    p.prop = prop; p.seed = seed;
    return p;
}
